"""Order and multiplicity of evaluation."""
from evalspec import *

RULE = ('Path-sensitive dataflow over the evaluator, one node kind at a time with its sub-nodes opaque: on every path the sequence '
        'of sub-node evaluations must be the one the language defines for that node (each at most once, in order, short-circuit and '
        'branch selection decided by the value of the deciding operand), evaluation ends when it has to and literals are built from their '
        'elements in order.')
ASSUMPTIONS = ['sub-nodes are explored separately (the evaluator is compositional: it reaches other nodes only through its own entry points)',
               'loops are followed for two full rounds; sequences (arguments, elements, statements) for 0 to 2 elements (thorough: 3)']

def check(P, R, tier):
    E = Eval(P)
    for s in scenarios(E, tier == 'thorough'):
        I, res = explore(E, s)
        ct = child_terms(E, I, s)
        R.count('nodes')
        done = 0
        for st in res:
            if st.end == 'infeasible': continue
            R.count('paths')
            h = history(E, I, s, st, ct)
            R.count('evaluation_steps', len(h))
            for i in range(len(h) + 1):
                if i == len(h) and st.end == 'cut': break
                exp = expected(E, I, s, st, h[:i])
                got = h[i][0] if i < len(h) else None
                if exp == 'block|end':
                    if got in ('block', None): continue
                elif exp == got: 
                    if got is None: break
                    continue
                if st.end in ('rpanic', 'diverge') and got is None: continue
                R.bad('order:%s:%s:%s' % (s.label, '>'.join(x[0] for x in h[:i]), got),
                      'evaluating %s: after [%s] the evaluator %s, expected %s; %s' % (s.label, ', '.join(x[0] for x in h[:i]),
                       'evaluates ' + got if got else 'ends', {None: 'the end', '*': 'a decision on the previous value'}.get(exp, exp), fmt_path(I, st)))
                break
            else: pass
            if st.end == 'return' and len(h) == len(s.names) and all(x[3] == 'Regular' for x in h): done += literal(E, R, I, s, st, h)
        if s.label.startswith('Literal.'):
            R.count('literals')
            if not done: R.bad('literal:' + s.label, 'no path evaluates %s to its value' % s.label)
    R.floor('nodes', 45)
    R.floor('literals', 12)

def literal(E, R, I, s, st, h):
    if not s.label.startswith('Literal.'): return 0
    o = E.outcome(I, st, 'expr')
    key = 'literal:' + s.label
    name = s.label[8:].split('/')[0]
    if o[0] != 'flow' or o[1] != 'Regular':
        R.bad(key, '%s does not evaluate to a value: %s' % (s.label, fmt_path(I, st))); return 1
    v = o[2]
    litv = E.field(I, 'literal')
    want = {'Identifier': 'String'}.get(name, name)
    if v[0] != 'a' or vname(I, v) != want:
        R.bad(key, '%s evaluates to %s' % (s.label, I.show(v, 5))); return 1
    t = I.term(st, v, 14)
    if name in ('Bool', 'Int', 'Float', 'Byte', 'String', 'Identifier'):
        pay = I.term(st, litv[3][0])
        if leaves(I, t, {pay}) != [pay] : R.bad(key, '%s evaluates to %s, not its own value' % (s.label, I.show(t, 8)))
        if name in ('Bool', 'Int', 'Byte') and I.term(st, v[3][0]) != pay: R.bad(key, '%s evaluates to %s, not its own value' % (s.label, I.show(t, 8)))
        if name == 'Float' and arith_noise(I, t): R.bad(key, 'float literal is altered: %s' % I.show(t, 8))
    if name == 'Array':
        want = [val(E, I, x)[1] for x in h]
        got = leaves(I, t, set(want))
        if got != want: R.bad(key, '%s: the array is built from %d values in a different order than its elements' % (s.label, len(got)))
    if name == 'Dict':
        vals = {val(E, I, x)[1]: i for i, x in enumerate(h)}
        keys = {I.mk('key', ('n', i)): i for i in range(len(h))}
        got = set()
        for e in st.events():
            if e[0] not in ('call', 'push'): continue
            if e[0] == 'call':
                args = list(e[3])
                if e[7].get('m') not in ('insert', 'push', 'entry', 'extend', 'from_iter', 'collect', 'push_back'): continue
                args = args[1:] if len(args) > 1 else args
            else: args = [I.term(st, e[3], 10)]
            vs = [vals[x] for a in args for x in leaves(I, a, set(vals))]
            ks = [keys[x] for a in args for x in leaves(I, a, set(keys))]
            if vs and ks:
                if len(vs) == 1 and len(ks) == 1:
                    if vs != ks: R.bad(key, '%s: the value of entry %d is stored under the key of entry %d' % (s.label, vs[0], ks[0]))
                    got.add(vs[0])
        for i in range(len(h)):
            if i not in got and len(leaves(I, t, set(vals))) == 0: R.bad(key, '%s: entry %d is not stored in the dictionary' % (s.label, i))
    return 1

def arith_noise(I, t):
    return any(I.T.t[x][0] in ('Neg', 'Add', 'Sub', 'Mul', 'Div') for x in subterms(I, t))

def subterms(I, t):
    seen = set(); w = [t]
    while w:
        x = w.pop()
        if x in seen: continue
        seen.add(x)
        for p in I.T.t[x][1:]:
            if isinstance(p, int) and not isinstance(p, bool): w.append(p)
            elif isinstance(p, tuple) and not (p and p[0] == 'n'):
                w += [q for q in p if isinstance(q, int)]
    return seen
