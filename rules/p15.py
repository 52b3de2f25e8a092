"""Type names are consistent everywhere."""
import re, itertools
from natspec import *
import p14

TECHNIQUE = 'abstract interpretation of compiler MIR with explicit type tags and (partly) unknown strings, compared across std.type, std.typecheck, std.try_typecheck and the type errors'
RULE = ('The string std.type gives for each kind of value is computed; the strings must be distinct. std.typecheck and std.try_typecheck are followed for every kind of value '
        'and every such string (accepting exactly the value whose std.type gives the string) and for strings of unknown bytes up to the length of the longest '
        'name plus three (accepting no other string). Every constant type description given to a type error must use only these names, and a type error '
        'of a native function must name exactly the types supported in the place of the argument it blames.')
ASSUMPTIONS = ['strings longer than the longest type name plus three bytes are like the others', 'supported argument types: table of P14']

KINDS = p14.ANY
STOP = {'or', 'and', 'a', 'an', 'of', 'the', 'single', 'value'}

def string_of(P, I, st, v):
    t = I.term(st, v, 14)
    b = find_bytes(I, t)
    if len(b) == 1: return b[0].decode('latin1')
    w = tls_of(I, t)
    return tls_strings(P).get(w) if w else None

def check(P, R, tier):
    E = Eval(P)
    nat = natives(P)
    names = {}
    for k in KINDS:
        I, res = explore_native(E, need(nat.get('std.type'), 'std.type'), lambda V: [V.sym(k, 'a0')])
        R.count('kinds')
        for st in res:
            r = result_of(I, st)
            s = string_of(P, I, st, r[1]) if r[0] == 'value' else None
            if s is None: R.bad('type:' + k, 'std.type of a %s does not give a fixed name (%s); %s' % (k, r[0], fmt_path(I, st))); continue
            if names.setdefault(k, s) != s: R.bad('type:' + k, 'std.type of a %s gives both %s and %s' % (k, names[k], s))
    for a, b in itertools.combinations(sorted(names), 2):
        if names[a] == names[b]: R.bad('same:%s:%s' % (a, b), 'std.type gives %r for both %s and %s' % (names[a], a, b))
    for fnm in ('std.typecheck', 'std.try_typecheck'):
        fn = need(nat.get(fnm), fnm)
        for k in KINDS:
            for k2, nm in sorted(names.items()):
                I, res = explore_native(E, fn, lambda V: [V.sym(k, 'a0'), V.string(nm.encode('latin1'), 'name')])
                for st in res:
                    R.count('typecheck_cases')
                    r = verdict(I, st, fnm)
                    want = 'valid' if k == k2 else 'invalid'
                    if r != want: R.bad('%s:%s:%s' % (fnm, k, nm), '%s(%s value, "%s") is %s, but std.type gives "%s"; %s' % (fnm, k, nm, r, names.get(k), fmt_path(I, st)))
        top = max([len(x) for x in names.values()] or [8])
        for n in range(0, top + (3 if tier == 'quick' else 8)):
            for k in (KINDS if tier != 'quick' else ('Int', 'Error')):
                I, res = explore_native(E, fn, lambda V: [V.sym(k, 'a0'), V.string(V.symbytes(n), 'name')])
                for st in res:
                    R.count('unknown_names')
                    r = verdict(I, st, fnm)
                    if r in ('rejected',): continue
                    bs = [I.norm(st, b) for b in I.V.symbytes(n)]
                    if all(b[0] == 'k' for b in bs) and bytes(b[1] for b in bs).decode('latin1') in names.values(): continue
                    got = ''.join(chr(b[1]) if b[0] == 'k' else '?' for b in bs)
                    R.bad('%s:name:%d' % (fnm, n), '%s accepts "%s" as the name of a type (%s), which std.type never gives; %s' % (fnm, got, r, fmt_path(I, st)))
    R.floor('typecheck_cases', 190)
    messages(P, R, set(names.values()))
    blames(P, R, E, names)

def verdict(I, st, fnm):
    r = result_of(I, st)
    if r[0] == 'panic': return {'TypeError': 'invalid' if fnm == 'std.typecheck' else 'raises TypeError', 'ValueError': 'rejected'}.get(r[1], 'raises %s' % r[1])
    if r[0] != 'value': return 'a crash (%s)' % r[0]
    if fnm == 'std.typecheck': return 'valid' if I.term(st, r[1]) == I.term(st, I.given[0]) else 'answered with another value'
    return {'Nil': 'valid', 'Error': 'invalid'}.get(vname(I, r[1]), 'answered with another value')

def words(s): return [w for w in re.split(r'[^A-Za-z_]+', s) if w and w not in STOP]

def messages(P, R, names):
    pti = need(ty(P, 'runtime::panic::Panic'), 'Panic')
    te = [i for i, v in enumerate(P.types[pti]['v']) if v['n'] == 'TypeError']
    need(te, 'TypeError')
    makers = set()
    for f in P.fns:
        if f.get('local') and f['locals'][0] == pti:
            for b in f['bb']:
                for s in b[0]:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and s[2][2] == pti and s[2][3] == te[0]: makers.add(f['id'])
    def consts(x):
        if isinstance(x, list):
            for y in x: yield from consts(y)
        elif isinstance(x, dict):
            for k, v in x.items():
                if k in ('s', 'str') and isinstance(v, str): yield v
                elif k in ('bytes', 'b') and isinstance(v, list) and all(isinstance(z, int) for z in v): yield bytes(v).decode('latin1')
                else: yield from consts(v)
    for f in P.fns:
        if not f.get('local'): continue
        for b in f['bb']:
            t = b[1]
            if t[0] == 'call' and isinstance(t[1], dict) and t[1].get('id') in makers:
                for a in t[2]:
                    for s in consts(a) if a and a[0] == 'k' else ():
                        R.count('type_error_messages')
                        for w in words(s):
                            if w not in names: R.bad('message:%s' % s, '%s (line %s) describes the expected type as "%s", but there is no type named "%s"' % (f['n'], b[2], s, w))

def blames(P, R, E, names):
    for nm, fn in natives_all(P):
        sigs = p14.SPEC.get(nm)
        if not sigs: continue
        for n in sorted({len(s) for s in sigs}):
            if not n: continue
            I, res = explore_native(E, fn, lambda V: [V.any('a%d' % i) for i in range(n)], max_visits=6)
            for st in res:
                r = result_of(I, st)
                if r[0] != 'panic' or r[1] != 'TypeError' or p14.callee(I, st): continue
                f = p14.panic_fields(I, r[2])
                if 'value' not in f or 'expected' not in f: continue
                t = I.term(st, f['value'])
                pos = [i for i, g in enumerate(I.given) if I.term(st, g) == t]
                b = find_bytes(I, I.term(st, f['expected'], 14))
                if not pos or len(b) != 1: continue
                kinds = [vnames(I, st, v, E.value_ti) for v in I.given]
                tuples = list(itertools.product(*kinds))
                if any(p14.fits(x, sigs) for x in tuples): continue
                i = pos[0]
                R.count('native_type_errors')
                want = {names[k] for k in KINDS if k in names and any(p14.fits(x[:i] + (k,) + x[i + 1:], sigs) for x in tuples)}
                got = set(words(b[0].decode('latin1')))
                if want and got != want: R.bad('expected:%s:%d' % (nm, i), '%s tells that its argument %d has to be "%s", but it supports %s' % (nm, i + 1, b[0].decode('latin1'), ', '.join(sorted(want))))
    R.floor('native_type_errors', 40)
