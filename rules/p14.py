"""Standard library functions check argument count and types."""
import itertools
from natspec import *

TECHNIQUE = 'path-sensitive dataflow (abstract interpretation of compiler MIR) of every native function, for every argument count and every combination of argument types'
RULE = ('For every native function registered with the interpreter (or built by one) and every number of arguments up to one more than it can take (at '
        'least 4), all paths are followed with arguments of unknown type. The types each path admits are collected: a path on which the function does anything but '
        'raise InvalidArgs or TypeError may only admit supported type combinations, a TypeError may only be raised for an unsupported '
        'combination and must name an offending argument, InvalidArgs only for an unsupported number of arguments and must give that number, and on both '
        'no effect (output, environment, file, process, mutation, call of a script function) may come first.')
ASSUMPTIONS = ['the supported types are those of the table in rules/p14.py, transcribed from the documentation of the standard library',
               'foreign code does not inspect the arguments of the native function',
               'more arguments than tried behave like one too many (argument lists are matched by length)']

ANY = ('Nil', 'Bool', 'Byte', 'Int', 'Float', 'String', 'Array', 'Dict', 'Function', 'Error')
A = ANY; S = ('String',); N = ('Int',); NF = ('Int', 'Float'); COLL = ('String', 'Array', 'Dict')
# name -> supported signatures
SPEC = {
    'std.args': [()], 'std.assert': [(('Bool',),)], 'std.base64.encode': [(S,)], 'std.base64.decode': [(S,)],
    'std.bind': [(A, ('Function',))], 'std.bytes': [(S,)], 'std.catch': [(('Function',),)], 'std.cd': [(S,)],
    'std.contains': [(('Array', 'Dict'), A), (S, ('Byte',))], 'std.cwd': [()], 'std.env': [(S,)], 'std.error': [(S, A)],
    'std.exit': [(N,)], 'std.export': [(S, S)], 'std.float': [(('Int', 'Float', 'String'),)], 'std.glob': [(S,)], 'std.has_error': [(A,)],
    'std.hex.encode': [(S,)], 'std.hex.decode': [(S,)], 'std.import': [(S,)], 'std.int': [(('Int', 'Float', 'String'),)],
    'std.is_empty': [(COLL,)], 'std.len': [(COLL,)], 'std.iter': [(COLL,)], 'std.iter<impl>': [()],
    'std.json.decode': [(S,)], 'std.json.encode': [(A,)], 'std.panic': [(A,)], 'std.pop': [(('Array',),)],
    'std.print': None, 'std.println': None, 'std.bind<impl>': None,
    'std.push': [(('Array',), A)], 'std.rand': [()], 'std.randint': [(N, N)], 'std.randseed': [(N,)],
    'std.range': [(NF, NF, NF)], 'std.range<impl>': [()], 'std.read': [(), (S,)], 'std.regex': [(S,)],
    'std.regex<match>': [(S,)], 'std.regex<split>': [(S,)], 'std.regex<replace>': [(S, S)], 'std.replace': [(S, S, S)],
    'std.sleep': [(N,)], 'std.sort': [(('Array',),)], 'std.split': [(S, S)], 'std.substr': [(S, N, N)],
    'std.to_string': [(A,)], 'std.trim': [(S,)], 'std.type': [(A,)], 'std.typecheck': [(A, S)], 'std.try_typecheck': [(A, S)],
}
EFFECTS = ('std::env::set', 'std::env::remove', 'std::process::', 'std::fs::', 'std::io::', 'std::thread::', '<std::io::', '<std::process', 'rand::', 'std::env::args')

def effects(I, st):
    out = []
    for e in st.events():
        if e[0] == 'eval': out.append('calls a script function')
        elif e[0] == 'push': out.append('changes a collection')
        elif e[0] == 'call' and e[7].get('krate') != 'hush':
            n = e[1]
            if n.startswith(EFFECTS) and not n.startswith(('std::io::Error', 'std::io::stdout', 'std::io::stdin', 'std::io::stderr')): out.append(n)
            elif n.startswith(('std::collections', 'std::vec::Vec')) and any(x in n for x in ('::insert', '::remove', '::push', '::pop', '::clear', '::sort', '::retain', '::truncate', '::drain', '::swap')): out.append(n)
    return out

def combos(kinds, sig): return all(set(k) <= set(s) for k, s in zip(kinds, sig))

def fits(t, sigs): return any(len(t) == len(s) and all(k in x for k, x in zip(t, s)) for s in sigs)

def offending(t, sigs):
    """positions that differ from a closest supported signature"""
    best = None; out = set()
    for s in sigs:
        if len(s) != len(t): continue
        d = {i for i, k in enumerate(t) if k not in s[i]}
        if best is None or len(d) < best: best = len(d); out = set(d)
        elif len(d) == best: out |= d
    return out

def check(P, R, tier):
    E = Eval(P)
    nat = natives(P)
    for nm in sorted(SPEC):
        if nm not in nat: R.bad('missing:%s' % nm, 'standard library function %s is not provided' % nm)
    for nm, fn in natives_all(P):
        if not nm.startswith('std.'): R.notes.append('not a standard library function: %s' % nm); continue
        if nm not in SPEC:
            R.count('functions_without_signature'); R.notes.append('no signature recorded for %s' % nm); continue
        sigs = SPEC[nm]
        R.count('functions')
        if sigs is None: continue
        top = max(len(s) for s in sigs)
        for n in range(0, max(top + 2, 5) if tier == 'quick' else top + 5):
            one(P, R, E, nm, fn, sigs, n)
    R.floor('functions', 50)
    R.floor('argument_lists', 220)
    R.floor('paths', 400)

def one(P, R, E, nm, fn, sigs, n):
    where = '%s with %d argument%s' % (nm, n, '' if n == 1 else 's')
    I, res = explore_native(E, fn, lambda V: [V.any('a%d' % i) for i in range(n)], max_visits=6)
    R.count('argument_lists')
    arity = any(len(s) == n for s in sigs)
    seen = set(); cut = False
    for st in res:
        R.count('paths')
        r = result_of(I, st)
        if st.end == 'cut': cut = True
        kinds = [vnames(I, st, v, E.value_ti) for v in I.given]
        def bad(what, msg): R.bad('%s:%s/%d' % (what, nm, n), '%s %s, for arguments of types (%s); %s' % (where, msg, ', '.join('|'.join(k) if len(k) < 10 else 'any' for k in kinds), fmt_path(I, st)))
        name = r[1] if r[0] == 'panic' else None
        if name in ('InvalidArgs', 'TypeError'):
            ef = effects(I, st)
            if ef: bad('late', 'has an effect (%s) before raising %s' % (ef[0], name))
        if not arity:
            if name != 'InvalidArgs': bad('count', 'is not rejected (%s)' % describe(I, r, st))
            else: count_given(I, st, r, n, bad)
            continue
        if name == 'InvalidArgs': bad('arity', 'is rejected for its number of arguments'); continue
        tuples = list(itertools.product(*kinds))
        ok = [t for t in tuples if fits(t, sigs)]
        if name == 'TypeError':
            if not callee(I, st) and not (nm == 'std.typecheck' and ok):  # whose purpose is to raise one
                if ok: bad('reject', 'raises a type error for supported types (%s)' % ', '.join(ok[0]))
                else: names(I, E, st, r, tuples, sigs, bad)
        else:
            if len(ok) != len(tuples):
                t = [t for t in tuples if t not in set(ok)][0]
                bad('accept', 'does not reject unsupported types (%s): %s' % (', '.join(t), describe(I, r, st)))
            seen |= set(ok)
    if arity:
        want = {t for s in sigs if len(s) == n for t in itertools.product(*s)}
        miss = want - seen
        if miss and not cut: R.bad('never:%s/%d' % (nm, n), '%s never accepts supported types (%s)' % (where, ', '.join(sorted(miss)[0])))

def callee(I, st):
    return any(e[0] == 'eval' for e in st.events())

def describe(I, r, st):
    if r[0] == 'panic': return 'raises %s' % r[1]
    if r[0] == 'value': return 'it returns a value'
    return 'path ends with %s' % st.end

def panic_fields(I, v):
    t = I.types[v[1]]['v'][v[2]]
    return {f[0]: v[3][i] for i, f in enumerate(t['f'])}

def count_given(I, st, r, n, bad):
    f = panic_fields(I, r[2])
    s = f.get('supplied')
    if s is not None and s[0] == 'k' and s[1] != n: bad('supplied', 'reports %d supplied arguments' % s[1])
    e = f.get('expected')
    if e is not None and e[0] == 'k' and e[1] == n: bad('expected', 'reports that it expected as many arguments as it was given')

def names(I, E, st, r, tuples, sigs, bad):
    v = panic_fields(I, r[2]).get('value')
    if v is None: return
    t = I.term(st, v)
    pos = [i for i, g in enumerate(I.given) if I.term(st, g) == t]
    if not pos: return  # built otherwise (a part of the argument, say)
    if all(pos[0] not in offending(x, sigs) for x in tuples): bad('blame', 'blames argument %d, which is of a supported type' % (pos[0] + 1))
