"""Integer arithmetic of scripts never wraps, truncates or crashes the interpreter."""
import re
from natspec import *
import p06

TECHNIQUE = 'path-sensitive dataflow with intervals (abstract interpretation of compiler MIR) of the native functions and the evaluator, and a taint-style scan of all integer operations on script integers'
RULE = ('Every path of every native function, with arguments of unknown types, and of the evaluation of every arithmetic operator is followed: an '
        'operation on a script integer (the payload of an Int value, or any 64-bit signed number of the runtime) that can overflow, divide by zero or index '
        'out of bounds must not be able to abort the interpreter; it may not wrap, saturate, or be converted to a type that cannot hold it '
        'unless the path excludes the values that do not fit; and a function that requires a non-empty range may only be called where the range is known not to be empty. '
        'Integer operators give the exact result or raise the overflow/division panic. Integer operations of the runtime outside of these functions must be exact or checked.')
ASSUMPTIONS = ['a counter that starts at a constant and is increased by a small constant cannot reach 2^63',
               'conversion from a float truncates; conversion to a float rounds (documented)']

BADCALL = re.compile(r'(wrapping|saturating|unchecked|overflowing)_(add|sub|mul|neg|div|rem|pow|abs|shl|shr)')
PLAIN = re.compile(r'^<&?(i64|i128|isize) as std::ops::(Add|Sub|Mul|Neg|Div|Rem|Shl|Shr|AddAssign|SubAssign|MulAssign|NegAssign|DivAssign|RemAssign)')
CRASHING = re.compile(r'(::gen_range|::random_range|::index|::index_mut|::split_at|::split_at_mut|::with_capacity|::repeat|::step_by|::chunks|::remove|::insert|::swap|::drain|::split_off|::from_digit|::abs|::pow|::sample_single_inclusive|Uniform.*::new.*)$')

class Only:
    """reports of another rule, restricted to those about integers"""
    def __init__(self, R, pred): self.R = R; self.pred = pred; self.notes = []
    def bad(self, k, m):
        if self.pred(k): self.R.bad(k, m)
    def count(self, n, k=1): self.R.count(n, k)
    def floor(self, *a): pass

def check(P, R, tier):
    E = Eval(P)
    covered = set()
    for nm, fn in natives_all(P):
        if not nm.startswith('std.'): continue
        R.count('native_functions')
        for n in range(0, 4): native(P, R, E, nm, fn, n, covered, tier)
    R.floor('native_functions', 50)
    R.floor('paths', 400)
    # operators
    bop = need(ty(P, 'semantic::program::BinaryOp'), 'BinaryOp')
    uop = need(ty(P, 'semantic::program::UnaryOp'), 'UnaryOp')
    O = Only(R, lambda k: k.endswith(':Int:Int') or k == 'unary:Minus:Int' or (k.startswith('unary:') and k.endswith(':Int')) or ':Int:Int:' in k)
    for i, v in enumerate(P.types[bop]['v']):
        if v['n'] not in p06.ARITH: continue
        I, res = E.explore('expr', 'BinaryOp', presets={'op': lambda I, o: ('a', bop, i, ())})
        p06.binary(E, O, I, res, v['n'])
        for st in res: events(P, R, E, I, st, 'operator %s' % v['n'], covered)
        R.count('operators')
    for i, v in enumerate(P.types[uop]['v']):
        I, res = E.explore('expr', 'UnaryOp', presets={'op': lambda I, o: ('a', uop, i, ())})
        p06.unary(E, O, I, res, v['n'])
        for st in res: events(P, R, E, I, st, 'unary %s' % v['n'], covered)
        R.count('operators')
    R.floor('operators', 6)
    scan(P, R, covered)

def leaf_set(I, E):
    """terms standing for the payload of an integer argument"""
    ix = [v['n'] for v in I.types[E.value_ti]['v']].index('Int')
    def isleaf(k):
        if k[0] != 'f': return False
        d = I.T.t[k[1]]
        return d[0] == 'd' and d[2] == ('n', ix) and valueish(I, d[1])
    return isleaf

def valueish(I, t):
    k = I.T.t[t]
    if k[0] == '*': return valueish(I, k[1])
    return k[0] in ('v', 'ci', 'idx', 'f', 'x', 'arg', 'call', 'pre', 'elem', 'ix')

def has_int(I, t, isleaf, depth=14, memo=None):
    """does a term involve a script integer?"""
    if memo is None: memo = {}
    if t in memo: return memo[t]
    memo[t] = False
    if depth <= 0: return False
    k = I.T.t[t]
    r = isleaf(k)
    if not r:
        for p in k[1:]:
            if isinstance(p, bool): continue
            if isinstance(p, int): r = has_int(I, p, isleaf, depth - 1, memo)
            elif isinstance(p, tuple) and not (p and p[0] == 'n'):
                for q in p:
                    if isinstance(q, int) and not isinstance(q, bool) and has_int(I, q, isleaf, depth - 1, memo): r = True; break
            if r: break
    memo[t] = r
    return r

def native(P, R, E, nm, fn, n, covered, tier):
    def step(I, st, c):
        nme = c.name
        if BADCALL.search(nme) or PLAIN.match(nme) or CRASHING.search(nme):
            st.event(('arith', nme, tuple(I.term(st, a) for a in c.args), st.frames[-1].fn['n'] if st.frames else '', c.line, tuple(c.ats), tuple(c.args)))
        return None
    def prep(I):
        I.on_cast = lambda st, v, fti, tti: st.event(('cast', I.term(st, v), fti, tti, st.frames[-1].fn['n']))
    I, res = explore_native(E, fn, lambda V: [V.any('a%d' % i) for i in range(n)], hooks=[step], prepare=prep, max_visits=6 if tier == 'quick' else 9)
    R.count('argument_lists')
    for st in res: events(P, R, E, I, st, nm, covered)

def events(P, R, E, I, st, where, covered):
    isleaf = leaf_set(I, E)
    R.count('paths')
    def bad(key, msg): R.bad('%s:%s' % (key, where), '%s: %s; %s' % (where, msg, fmt_path(I, st)))
    for e in st.events():
        if e[0] == 'assert' or e[0] == 'rpanic':
            R.count('checked_operations')
            fnm, line = e[2], e[3]
            covered.add((fnm, line))
            if e[0] == 'rpanic':
                bad('crash', 'aborts the interpreter (%s in %s, line %s)' % (e[1], fnm, line)); continue
            t = e[5]
            if not (has_int(I, t, isleaf) or (opparts(I, t, e[4]) and I.types[e[4]]['s'] == 'i64')): continue
            if e[1] in ('ResumedAfterReturn', 'misaligned', 'null'): continue
            if counter(I, t, e[4], isleaf) or excluded(I, st, t, e[4]): continue
            bad('overflow', 'an integer operation can abort the interpreter or wrap around (%s in %s, line %s: %s)' % (e[1], fnm, line, I.show(t, 6)))
        elif e[0] == 'arith':
            R.count('integer_calls')
            nme, ts, fnm, line, ats, args = e[1:7]
            covered.add((fnm, line))
            ints = [a for a in ats if a is not None]
            if PLAIN.match(nme):
                bad('wrap', '%s of script integers can overflow (in %s, line %s)' % (nme, fnm, line)); continue
            if not any(has_int(I, t, isleaf) for t in ts) and not (BADCALL.search(nme) and 'impl i64>' in nme): continue
            if BADCALL.search(nme):
                if 'overflowing' in nme and flag_known(I, st, ts, nme): continue
                bad('wrap', '%s on a script integer does not give the exact result (in %s, line %s)' % (nme.rsplit('::', 1)[1], fnm, line)); continue
            if re.search(r'::(gen_range|random_range|sample_single_inclusive)$', nme):
                r = nonempty(I, st, args)
                if r is False: bad('crash', '%s can be given an empty range and abort the interpreter (in %s, line %s)' % (nme.rsplit('::', 1)[1], fnm, line))
                continue
            if bounded(I, st, ts, isleaf): continue
            bad('crash', '%s of an unchecked script integer can abort the interpreter (in %s, line %s)' % (nme.rsplit('::', 1)[1], fnm, line))
        elif e[0] == 'cast':
            t, fti, tti, fnm = e[1:5]
            R.count('narrowing_casts')
            if not has_int(I, t, isleaf): continue
            if where == 'std.randseed' and I.types[tti].get('b') == I.types[fti].get('b'): continue  # any bijection will do
            lo, hi = I.bounds(st, ('s', t, fti), fti)
            tt = I.types[tti]; b = tt.get('b', 64)
            if lo >= (-(1 << (b - 1)) if tt['k'] == 'int' else 0) and hi <= ((1 << (b - 1)) - 1 if tt['k'] == 'int' else (1 << b) - 1): continue
            bad('truncate', 'a script integer is converted from %s to %s, which cannot hold it (in %s)' % (I.types[fti]['s'], tt['s'], fnm))
        elif e[0] == 'noreturn':
            if e[1] == 'std::process::exit': continue
            last = list(st.facts)[-1:] 
            if any(has_int(I, t, isleaf) for t in tuple(e[2]) + tuple(last)): bad('crash', 'a script integer can abort the interpreter (%s in %s, line %s)' % (e[1], e[3], e[4]))

def opparts(I, t, ti):
    """operation, operands and type of an overflow condition"""
    k = I.T.t[t]
    if k[0] == 'not': return opparts(I, k[1], ti)
    if k[0] == 'ovf' and isinstance(ti, int): return k[1], k[2], k[3], ti
    return None

def counter(I, t, ti, isleaf):
    o = opparts(I, t, ti)
    if not o or o[0] not in ('Add', 'Sub'): return False
    for a, b in ((o[1], o[2]), (o[2], o[1])):
        k = I.T.t[b]
        if k[0] == 'k' and k[1][1] <= 16 and not has_int(I, a, isleaf): return True
    return False

def excluded(I, st, t, ti):
    """do the intervals of the operands rule the overflow out?"""
    o = opparts(I, t, ti)
    if not o: return False
    op, a, b, ti = o
    tt = I.types[ti]
    def bd(x):
        k = I.T.t[x]
        if k[0] == 'k': return I.bounds(st, ('k', k[1][1], ti), ti)
        return I.bounds(st, ('s', x, ti), ti)
    (al, ah), (bl, bh) = bd(a), bd(b)
    w = tt.get('b', 64)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if tt['k'] == 'int' else (0, (1 << w) - 1)
    if op == 'Add': x = (al + bl, ah + bh)
    elif op == 'Sub': x = (al - bh, ah - bl)
    elif op == 'Mul':
        c = [p * q for p in (al, ah) for q in (bl, bh)]; x = (min(c), max(c))
    else: return False
    return lo <= x[0] and x[1] <= hi

def flag_known(I, st, ts, nme):
    t = I.mk('call', nme, tuple(ts))
    return I.mk('f', t, ('n', 1)) in st.facts

def nonempty(I, st, args):
    """is the range among the arguments known not to be empty?"""
    for a in args:
        v = a
        if v[0] == 'r': v = I.read(st, v[1], v[2])
        if v[0] != 'a' or v[1] is None or 'ops::Range' not in I.types[v[1]]['s']: continue
        incl = 'Inclusive' in I.types[v[1]]['s']
        lo, hi = v[3][0], v[3][1]
        ti = lo[2] if lo[0] in ('s', 'k') else None
        if ti is None: return None
        g = I.norm(st, I.binop(st, 'Gt' if incl else 'Ge', lo, hi, ti))
        if g[0] == 'k' and g[1] == 0: return True
        (l1, h1), (l2, h2) = I.bounds(st, lo, ti), I.bounds(st, hi, ti)
        return h1 <= l2 if incl else h1 < l2
    # built by a function that is not looked into
    for a in args:
        t = I.term(st, a)
        k = I.T.t[t]
        if k[0] == 'call' and 'RangeInclusive' in k[1]:
            x = k[2][0], k[2][1]
            i64 = I.P.ty_by_s['i64']
            g = I.norm(st, I.binop(st, 'Gt', ('s', x[0], i64), ('s', x[1], i64), i64))
            return g[0] == 'k' and g[1] == 0
    return None

def bounded(I, st, ts, isleaf):
    """some comparison on the path restricts the integer"""
    leafs = set()
    def go(t, d):
        if d <= 0: return
        k = I.T.t[t]
        if isleaf(k): leafs.add(t); return
        for p in k[1:]:
            if isinstance(p, int) and not isinstance(p, bool): go(p, d - 1)
            elif isinstance(p, tuple) and not (p and p[0] == 'n'):
                for q in p:
                    if isinstance(q, int) and not isinstance(q, bool): go(q, d - 1)
    for t in ts: go(t, 14)
    for l in leafs:
        if not any(I.T.t[f][0] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'disc', 'call') and mention(I, f, l) for f in st.facts): return False
    return True

def mention(I, t, l, d=14):
    if t == l: return True
    if d <= 0: return False
    for p in I.T.t[t][1:]:
        if isinstance(p, bool): continue
        if isinstance(p, int):
            if mention(I, p, l, d - 1): return True
        elif isinstance(p, tuple) and not (p and p[0] == 'n'):
            if any(isinstance(q, int) and not isinstance(q, bool) and mention(I, q, l, d - 1) for q in p): return True
    return False

def scan(P, R, covered):
    """64-bit signed arithmetic anywhere else in the runtime"""
    S = lambda t: P.types[t]['s']
    for f in P.fns:
        if not f.get('local') or not re.match(r'^<?&?(runtime::|i64)', f['n']) or '::fmt' in f['n'] or '::tests::' in f['n']: continue
        R.count('functions_scanned')
        cov = {l for g, l in covered if g == f['n']}
        def bad(op, line): R.bad('unchecked:%s' % f['n'], '%s (line %s): %s on a 64-bit signed number outside of checked arithmetic' % (f['n'], line, op))
        for b in f['bb']:
            for s in b[0]:
                if s[0] != '=': continue
                r = s[2]
                if r[0] == 'bin' and S(r[4]) == 'i64' and r[1] in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'Add', 'Sub', 'Mul', 'Div', 'Rem', 'Shl') and s[3] not in cov: bad(r[1], s[3])
                if r[0] == 'un' and r[1] == 'Neg' and S(r[3]) == 'i64' and s[3] not in cov: bad('Neg', s[3])
            t = b[1]
            if t[0] == 'call':
                n = t[1].get('p') or ''
                if ('i64' in n and BADCALL.search(n) or PLAIN.match(n)) and b[2] not in cov: bad(n, b[2])
