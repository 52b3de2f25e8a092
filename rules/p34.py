"""Values, panics and errors print what they are."""
from fmtlib import *
from values import *
import maps, re

TECHNIQUE = 'abstract interpretation of the Display implementations, format strings included, over values of every kind; the sequence of pieces printed compared with the content'
RULE = ('The printing of a value is followed, format strings decoded and local implementations entered, for each kind of value and for arrays and dictionaries of up to three unknown elements (five in the thorough tier). What is printed, in order, is: nil; the truth value; the byte as a character; the number; the float in the round-trip form of '
        'std (which always shows it as a float); the escaped text of a string between quotes; each element of an array once, in order, separated by commas between brackets; each entry of a dictionary once, key before value, between @[ and ]; the native function by '
        'its name, another function by where it is written; the description and the context of an error. Every panic prints each value and number it carries, a user panic its value and nothing else of it, and IO errors their message. A symbol prints the escaped text it stands for. No path ends before everything is printed, except by failure of the formatter.')
ASSUMPTIONS = ['the Display and Debug implementations of std print what they document', 'blanks are not compared', 'positions are printed as in P33']

def squeeze(ps):
    """pieces without blanks, adjacent text joined"""
    out = []
    for p in ps:
        if isinstance(p, bytes):
            p = bytes(b for b in p if b not in b' \t\n')
            if not p: continue
            if out and isinstance(out[-1], bytes): out[-1] += p
            else: out.append(p)
        else: out.append(p)
    return out

def through(I, t):
    """a term without references, copies and conversions between owned and borrowed text"""
    while True:
        k = I.T.t[t]
        if k[0] in ('*', '&', 'cowref', 'conv', 'as_ref', 'ref', 'cell'): t = k[1]
        elif k[0] == 'call' and k[1].rsplit('::', 1)[-1] in ('as_ref', 'borrow', 'deref', 'as_str', 'as_bytes', 'clone', 'to_owned', 'into_owned', 'to_string', 'into_boxed_str', 'into_string', 'copy', 'as_os_str') and len(k[2]) >= 1: t = k[2][0]
        elif k[0] == 'agg' and len(k) == 4 and isinstance(k[3], tuple) and len(k[3]) == 1: t = k[3][0]
        else: return t

def text(I, t):
    """[names of text functions applied], innermost term"""
    ops = []
    while True:
        t = through(I, t)
        k = I.T.t[t]
        if k[0] == 'call' and len(k[2]) >= 1 and k[1].rsplit('::', 1)[-1] in ('escape_debug', 'from_utf8_lossy', 'to_string_lossy'): ops.append(k[1].rsplit('::', 1)[-1]); t = k[2][0]
        else: return ops, t

SAME = ('from', 'into', 'as_ref', 'deref', 'borrow', 'clone', 'copy', 'to_owned', 'into_owned', 'as_bytes', 'into_bytes', 'to_vec', 'as_slice', 'into_vec', 'as_str', 'to_string', 'into_boxed_str', 'into_boxed_slice', 'as_os_str', 'unwrap', 'to_bytes')

def based(I, t, base):
    """does a term lead to (a part of) base?"""
    while True:
        if t == base: return True
        k = I.T.t[t]
        if k[0] in ('f', 'd', '*', '&', 'cowref', 'as', 'conv', 'cell'): t = k[1]
        elif k[0] == 'agg' and isinstance(k[3], tuple) and len(k[3]) == 1: t = k[3][0]
        elif k[0] == 'call' and len(k[2]) == 1 and k[1].rsplit('::', 1)[-1] in SAME: t = k[2][0]
        else: return False

class Printing:
    def __init__(self, P, R):
        self.P = P; self.R = R
        self.value = need(ty(P, 'runtime::value::Value'), 'Value')
        self.fns = {}
        for f in P.fns:
            if f.get('local') and f.get('m') == 'fmt' and f['args'] in (2, 3) and 'Display' in (f.get('trait') or '') and f['kind'] == 'item':
                t = P.types[f['locals'][1]].get('to')
                if t is None or P.types[t]['k'] == 'ref': continue
                self.fns[(t, 'context' if f['args'] == 3 else 'plain')] = f
    def run(self, ti, build, leaf, mode='context', hooks=()):
        P = self.P
        fn = self.fns[(ti, mode)]
        pr = Printer(P)
        pr.leaf = lambda t, I, st: P.types[t]['s'] in leaf
        I = Interp(P, hooks=[pr.hook] + list(hooks) + [maps.maps, ident_copy], max_visits=9, max_depth=30)
        v = build(Vals(P, I)); t = fn['locals'][1]; n = 0
        chain = []
        while P.types[t]['k'] == 'ref': chain.append(t); t = P.types[t]['to']
        for x in chain:
            I.const_mem[('n', 'obj%d' % n)] = v; v = ('r', ('n', 'obj%d' % n), ()); n += 1
        return I, I.run(fn, [v] + [('s', I.mk('arg', ('n', i)), fn['locals'][i]) for i in range(2, fn['args'] + 1)])

def failed(I, st):
    """the formatter itself failed"""
    return st.ret is not None and st.ret[0] == 'a' and st.ret[2] == 1

LEAF = ('runtime::value::Value', 'runtime::source::SourcePos', 'symbol::Symbol')

def values_(X, tier):
    P, R = X.P, X.R
    n = 5 if tier == 'thorough' else 3
    kinds = [x['n'] for x in P.types[X.value]['v']]
    cases = [(k, k, (lambda V, k=k: V.nil() if k == 'Nil' else V.sym(k, 's0'))) for k in kinds if k not in ('Array', 'Dict')]
    cases += [('Array', 'an array of %d' % i, (lambda V, i=i: V.array([V.any('e%d' % j) for j in range(i)]))) for i in range(n + 1)]
    cases += [('Dict', 'a dictionary of %d' % i, (lambda V, i=i: V.mk('Dict', V.chain(V.fti('Dict'), 'd', lambda ti: ('a', ti, 'vec', tuple(('a', None, 0, (V.any('k%d' % j), V.any('w%d' % j))) for j in range(i))))))) for i in range(n + 1)]
    for kind, label, build in cases:
        I, res = X.run(X.value, build, LEAF)
        R.count('values')
        size = int(label.rsplit(' ', 1)[1]) if ' ' in label else None
        for st in res:
            if st.end == 'cut': continue
            if st.end == 'return' and failed(I, st): continue
            R.count('paths')
            def bad(w, m): R.bad('%s:%s' % (w, kind), 'printing %s: %s; %s' % (label, m, fmt_path(I, st)))
            if st.end != 'return': bad('end', 'the interpreter crashes'); continue
            ps = squeeze(printed(P, st))
            why = expected(X, I, st, kind, size, ps)
            if why: bad('text', why)

def show(I, ps): return ' '.join(p.decode('latin1') if isinstance(p, bytes) else '<%s %s %s>' % (p[0].rsplit('::', 1)[-1], p[1], I.show(I.term(State(), p[3]), 4)) for p in ps)

def expected(X, I, st, kind, size, ps):
    P = X.P
    term = lambda p: I.term(st, p[3])
    v = lambda nm: I.mk('v', nm)
    def one(ty_, base, trait='display'):
        if len(ps) != 1 or isinstance(ps[0], bytes): return 'it is printed as %s' % show(I, ps)
        if ps[0][0] != ty_ or ps[0][1] != trait or not based(I, term(ps[0]), v(base)): return 'it is printed as %s' % show(I, ps)
    def elem(p, nm): return not isinstance(p, bytes) and p[0] == 'runtime::value::Value' and p[1] == 'display' and through(I, term(p)) == v(nm)
    if kind == 'Nil': return None if ps == [b'nil'] else 'it is printed as %s' % show(I, ps)
    if kind == 'Bool':
        if ps in ([b'true'], [b'false']):
            f = [x for t, x in st.facts.items() if based(I, t, v('s0')) and I.T.t[t][0] == 'f']
            return None if f and all(bool(x) == (ps == [b'true']) for x in f) else 'a truth value is printed as its opposite'
        return one('bool', 's0')
    if kind == 'Int': return one('i64', 's0')
    if kind == 'Byte': return one('char', 's0')
    if kind == 'Float':
        if len(ps) == 1 and not isinstance(ps[0], bytes) and ps[0][0] == 'f64' and ps[0][1] == 'debug' and based(I, term(ps[0]), v('s0')) and not {'width', 'precision'} & set(ps[0][2]): return None
        return 'it is printed as %s, not in the form which reads back as the same float' % show(I, ps)
    if kind == 'String':
        if len(ps) != 3 or ps[0] != b'"' or ps[2] != b'"' or isinstance(ps[1], bytes): return 'it is printed as %s' % show(I, ps)
        ops, t = text(I, term(ps[1]))
        return None if ops == ['escape_debug', 'from_utf8_lossy'] and based(I, t, v('s0')) else 'its text is not printed escaped between quotes, but as %s' % show(I, ps)
    if kind in ('Array', 'Dict'):
        want = [b'[' if kind == 'Array' else b'@[']
        for i in range(size):
            if i: want.append(b',')
            want += ['e%d' % i] if kind == 'Array' else ['k%d' % i, b':', 'w%d' % i]
        want.append(b']')
        m = []
        for w in want:
            if isinstance(w, bytes) and m and isinstance(m[-1], bytes): m[-1] += w
            else: m.append(w)
        def fits(ps): return len(ps) == len(m) and all((p == w) if isinstance(w, bytes) else elem(p, w) for p, w in zip(ps, m))
        if fits(ps): return None
        if kind == 'Dict' and len(ps) == len(m):
            # any order of the entries
            got = [through(I, term(p)) for p in ps if not isinstance(p, bytes)]
            pairs = set(zip(got[::2], got[1::2]))
            if pairs == {(v('k%d' % i), v('w%d' % i)) for i in range(size)} and all((p == w) if isinstance(w, bytes) else not isinstance(p, bytes) for p, w in zip(ps, m)): return None
        return 'it is printed as %s' % show(I, ps)
    if kind == 'Function':
        if len(ps) == 1 and not isinstance(ps[0], bytes) and ps[0][0] == 'str':
            k = I.T.t[through(I, term(ps[0]))]
            if k[0] == 'call' and k[1].endswith('::name'): return None
        if len(ps) == 3 and ps[0] == b'function<' and ps[2] == b'>' and not isinstance(ps[1], bytes) and ps[1][0] == 'runtime::source::SourcePos' and based(I, term(ps[1]), v('s0')): return None
        return 'it is printed as %s' % show(I, ps)
    if kind == 'Error':
        parts = [p for p in ps if not isinstance(p, bytes)]
        lit = b'|'.join(p for p in ps if isinstance(p, bytes))
        if lit.replace(b'|', b'').replace(b'"', b'') != b'error:()': return 'it is printed as %s' % show(I, ps)
        if len(parts) == 2 and parts[1][0] == 'runtime::value::Value' and lit in (b'error:"|"(|)', b'error:|(|)'):
            ops, t = text(I, term(parts[0]))
            if lit == b'error:"|"(|)' and ops != ['escape_debug', 'from_utf8_lossy']: return 'its description is not printed escaped'
            d, c = I.show(t, 12), I.show(term(parts[1]), 12)
            fs = err_fields(X)
            if based(I, t, v('s0')) and based(I, through(I, term(parts[1])), v('s0')) and has_field(I, t, fs['description']) and has_field(I, term(parts[1]), fs['context']): return None
        return 'its description and its context are not both printed: %s' % show(I, ps)
    return 'it is a kind of value not known to this check'

def err_fields(X):
    P = X.P
    t = P.types[need(ty(P, 'runtime::value::error::Error'), 'Error')]
    return {f[0]: i for i, f in enumerate(t['v'][0]['f'])}

def has_field(I, t, j):
    """is field j of the error on the way of a term?"""
    seen = []
    while True:
        k = I.T.t[t]
        if k[0] == 'f': seen.append(k[2][1]); t = k[1]
        elif k[0] in ('d', '*', '&', 'cowref', 'as', 'conv', 'cell'): t = k[1]
        elif k[0] == 'agg' and isinstance(k[3], tuple) and len(k[3]) == 1: t = k[3][0]
        elif k[0] == 'call' and len(k[2]) >= 1: t = k[2][0]
        else: break
    return len(seen) > 1 and seen[-2] == j       # seen[-1] is the payload of the value

def panics(X):
    """every panic prints all it carries"""
    P, R = X.P, X.R
    ti = need(ty(P, 'runtime::panic::Panic'), 'Panic')
    for vi, v in enumerate(P.types[ti]['v']):
        for mode in ('context',):
            if (ti, mode) not in X.fns: continue
            I, res = X.run(ti, lambda V: ('a', ti, vi, tuple(('s', V.I.mk('x', f[0]), f[1]) for f in v['f'])), LEAF, mode)
            for st in res:
                if st.end == 'cut' or st.end == 'return' and failed(I, st): continue
                def bad(w, m): R.bad('%s:%s' % (w, v['n']), 'printing the panic %s: %s; %s' % (v['n'], m, fmt_path(I, st)))
                if st.end != 'return': bad('end', 'the interpreter crashes'); continue
                R.count('panics')
                ps = printed(P, st)
                at = {}
                for i, p in enumerate(ps):
                    if isinstance(p, bytes): continue
                    for x in leaves(I, I.term(st, p[3])): at.setdefault(I.T.t[x][1], []).append(i)
                if not b''.join(p for p in ps if isinstance(p, bytes)).lstrip().startswith(b'Panic'): bad('kind', 'it is not said to be a panic')
                names = [f[0] for f in v['f']]
                for f in v['f']:
                    got = at.get(f[0], [])
                    if len(got) != 1: bad('lost', 'its %s is printed %s' % (f[0], 'twice' if got else 'nowhere')); continue
                    i = got[0]
                    before = ps[i - 1] if i and isinstance(ps[i - 1], bytes) else b''
                    same = [g[0] for g in v['f'] if g[1] == f[1] and g[0] != f[0]]
                    last = re.findall(rb'[A-Za-z]+', before)[-1:]
                    if last and last[0].decode() in same: bad('role', 'its %s is printed as its %s' % (f[0], last[0].decode()))

def leaves(I, t):
    out = set(); seen = set(); stack = [t]
    while stack:
        x = stack.pop()
        if x in seen: continue
        seen.add(x)
        k = I.T.t[x]
        if k[0] == 'x': out.add(x); continue
        for y in k[1:]:
            if isinstance(y, bool): continue
            if isinstance(y, int) and k[0] != 'n': stack.append(y)
            elif isinstance(y, tuple) and not (y and y[0] == 'n'): stack += [z for z in y if isinstance(z, int) and not isinstance(z, bool)]
    return out

def symbols(X):
    """a symbol prints its escaped text"""
    P, R = X.P, X.R
    ti = need(ty(P, 'symbol::Symbol'), 'Symbol')
    def resolve(I, st, c):
        if c.info.get('krate') == 'hush' and c.m == 'resolve' and I.types[c.dti]['s'].startswith('std::option::Option<'):
            st.event(('resolve', I.term(st, c.args[1])))
            s2 = st.copy(); s2.event(('known',))
            it = I.types[c.dti]['v'][1]['f'][0][1]
            return [(st, ('a', c.dti, 0, ())), (s2, ('a', c.dti, 1, (('s', I.mk('text'), it),)))]
        return None
    I, res = X.run(ti, lambda V: ('s', V.I.mk('x', 'symbol'), ti), (), 'context', hooks=[resolve])
    n = 0
    for st in res:
        if st.end == 'cut' or st.end == 'return' and failed(I, st): continue
        def bad(w, m): R.bad('%s:symbol' % w, 'printing a symbol: %s; %s' % (m, fmt_path(I, st)))
        if st.end != 'return': bad('end', 'the interpreter crashes'); continue
        R.count('symbols')
        evs = [e for e in st.events() if e[0] in ('resolve', 'known')]
        if not evs and not any(I.T.t[t][0] in ('eq', 'Eq') and x == 1 or I.T.t[t][0] in ('ne', 'Ne') and x == 0 for t, x in st.facts.items() if I.mk('x', 'symbol') in leaves(I, t)):
            bad('unnamed', 'a symbol which is not the one of ill-formed names is printed without its text: %s' % show(I, squeeze(printed(P, st))))
        if ('known',) not in evs: continue
        ps = squeeze(printed(P, st))
        if len(ps) != 1 or isinstance(ps[0], bytes): bad('text', 'its text is printed as %s' % show(I, ps)); continue
        ops, t = text(I, I.term(st, ps[0][3]))
        if ops != ['escape_debug', 'from_utf8_lossy'] or not based(I, t, I.mk('text')): bad('text', 'its text is printed as %s' % show(I, ps))
        if not all(e[1] == I.mk('x', 'symbol') for e in evs if e[0] == 'resolve'): bad('other', 'the text of another symbol is printed')
        n += 1
    R.count('known_symbols', n)

def check(P, R, tier):
    X = Printing(P, R)
    values_(X, tier)
    panics(X)
    symbols(X)
    R.floor('values', 16); R.floor('paths', 17); R.floor('panics', 19); R.floor('known_symbols', 1)
