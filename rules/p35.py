"""JSON text is converted to exactly the value it describes, and back."""
from natspec import *
from values import *
import maps

TECHNIQUE = 'abstract interpretation of the generic bodies of the serde implementations: every sequence of serializer calls and every history of document parts, against the correspondence of JSON and values'
RULE = ('The Serialize implementation of a value is followed in its generic form, for a value of each kind, arrays and dictionaries of up to three elements (four in the thorough tier): on each path which does not end in a failure of the serializer, the calls made to the serializer describe exactly the value - nil as null, '
        'the truth value, the integer as the same integer, the float as the same float, the text of a string, a byte as a text of that byte, every element of an array once and in order, every entry of a dictionary once with its own key and value, the map or sequence opened for their number and '
        'ended; and a function, an error or a dictionary with a key which is no string fails, before the text is finished. The visitor of the decoder is followed for each part of a document serde can hand to it, with every outcome of asking for the next element, key and value: the value built has the payload of that part, every element in order and every entry, '
        'an integer outside the range of int fails, and a failure of the deserializer is handed on. std.json.encode gives the text serde made of its argument, and raises a panic when there is none; std.json.decode gives the value read from its whole argument, or an error value with the reason.')
ASSUMPTIONS = ['serde_json calls the visitor with the parts of the document in their order and writes what the serializer is told', 'the Serialize implementations of std types describe their content']

SER = {'serialize_unit': 'null', 'serialize_none': 'null', 'serialize_bool': 'bool', 'serialize_str': 'str', 'serialize_i64': 'int', 'serialize_f64': 'float'}
PRIM = {'i64': 'int', 'f64': 'float', 'bool': 'bool', 'str': 'str', 'std::string::String': 'str', '()': 'null'}

def tryhook(I, st, c):
    """the ? operator and map_err in generic code"""
    if c.dti is None: return None
    n = c.info.get('p') or c.info.get('decl') or ''
    if c.m == 'branch' and len(c.args) == 1 and c.args[0][0] == 'a':
        a = c.args[0]
        if a[2] == 0: return [(st, ('a', c.dti, 0, (a[3][0],)))]
        if a[2] == 1: return [(st, ('a', c.dti, 1, (('a', I.types[c.dti]['v'][1]['f'][0][1], 1, (a[3][0],)),)))]
    if c.m == 'from_residual' and len(c.args) == 1 and c.args[0][0] == 'a' and c.args[0][2] == 1:
        return [(st, ('a', c.dti, 1, (c.args[0][3][0],)))]
    if c.m == 'map_err' and len(c.args) == 2 and c.args[0][0] == 'a':
        a = c.args[0]
        if a[2] == 0: return [(st, ('a', c.dti, 0, (a[3][0],)))]
        if a[2] == 1: st.ctr += 1; return [(st, ('a', c.dti, 1, (('s', I.mk('failure', ('n', st.ctr)), I.types[c.dti]['v'][1]['f'][0][1]),)))]
    if c.m == 'map' and len(c.args) == 2 and c.args[0][0] == 'a' and c.args[0][2] == 1 and I.types[c.dti]['k'] == 'enum' and I.types[c.dti]['s'].startswith('std::result::Result'):
        return [(st, ('a', c.dti, 1, (c.args[0][3][0],)))]
    return None

def fail(I, st, c, what):
    s2 = st.copy(); s2.event(('failed', what))
    return s2, ('a', c.dti, 1, (('s', I.mk('failure', what), I.types[c.dti]['v'][1]['f'][0][1]),))

def is_result(I, ti): return ti is not None and I.types[ti]['k'] == 'enum' and I.types[ti]['s'].startswith('std::result::Result')

def body(P, last, part):
    return [f for f in P.fns if f.get('local') and f['kind'] == 'generic' and f['n'].rsplit('::', 1)[-1] == last and part in f['n'] and f.get('dk') != 'Closure']

def calls_same(I, v, st, n=8):
    while v[0] == 'r' and n: v = I.read(st, v[1], v[2]); n -= 1
    return v

def encode(P, R, tier):
    fns = [f for f in body(P, 'serialize', 'impl serde::Serialize for runtime::value::Value')]
    if len(fns) != 1: R.bad('shape', 'the Serialize implementation of values was not found'); return
    fn = fns[0]
    def hook(I, st, c):
        n = c.info.get('decl') or c.info.get('p') or ''
        if 'serde' not in n: return tryhook(I, st, c)
        out = []
        a = [x for x in c.args]
        def ok(ev, *more):
            s2 = st.copy()
            for e in ev: s2.event(e)
            v = ('a', c.dti, 0, (('s', I.mk('done', ('n', len(ev) + st.ctr)), I.types[c.dti]['v'][0]['f'][0][1]),)) if is_result(I, c.dti) else ('s', I.mk('done'), c.dti)
            s2.ctr += 1
            r = [(s2, v)]
            if is_result(I, c.dti): r.append(fail(I, st, c, c.m))
            return r
        if c.m in SER: return ok([('ser', SER[c.m], calls_same(I, a[1], st) if len(a) > 1 else None)])
        if c.m == 'serialize' and len(a) == 2 and c.ats[0] is not None:
            t = c.ats[0]
            while P.types[t]['k'] == 'ref': t = P.types[t]['to']
            s = P.types[t]['s']
            v = calls_same(I, a[0], st)
            if s in PRIM: return ok([('ser', PRIM[s], v)])
            if v[0] == 'a' and v[2] in ('vec', 'array'):
                return ok([('ser', 'open', 'seq', len(v[3]))] + [('ser', 'element', x) for x in v[3]] + [('ser', 'close')])
            return ok([('ser', 'value', v)])
        if c.m in ('serialize_map', 'serialize_seq'):
            k = calls_same(I, a[1], st)
            size = k[3][0][1] if k[0] == 'a' and k[2] == 1 and k[3][0][0] == 'k' else None
            return ok([('ser', 'open', c.m[10:], size)])
        if c.m == 'serialize_entry': return ok([('ser', 'key', calls_same(I, a[1], st)), ('ser', 'val', calls_same(I, a[2], st))])
        if c.m == 'serialize_key': return ok([('ser', 'key', calls_same(I, a[1], st))])
        if c.m == 'serialize_value': return ok([('ser', 'val', calls_same(I, a[1], st))])
        if c.m == 'serialize_element': return ok([('ser', 'element', calls_same(I, a[1], st))])
        if c.m == 'end': return ok([('ser', 'close')])
        if c.m == 'custom': st.event(('refused',)); return [(st, ('s', I.mk('refusal'), c.dti))]
        return ok([('ser', 'unknown', c.m)])
    n = 4 if tier == 'thorough' else 3
    V0 = Vals(P, Interp(P))
    cases = [(k, k, (lambda V, k=k: V.nil() if k == 'Nil' else V.sym(k, 's0'))) for k in V0.kinds if k not in ('Array', 'Dict')]
    cases += [('Array', 'an array of %d' % i, (lambda V, i=i: V.array([V.any('e%d' % j) for j in range(i)]))) for i in range(n + 1)]
    mk = lambda V, ks: V.mk('Dict', V.chain(V.fti('Dict'), 'd', lambda ti: ('a', ti, 'vec', tuple(('a', None, 0, (V.nil() if k == 'Nil' else V.sym(k, 'k%d' % j), V.any('w%d' % j))) for j, k in enumerate(ks)))))
    cases += [('Dict', 'a dictionary of %d' % i, (lambda V, i=i: mk(V, ['String'] * i))) for i in range(n + 1)]
    for k in V0.kinds:
        if k in ('String', 'Array', 'Dict'): continue
        for pos in ((0,), (0, 1), (1, 1)): cases.append(('refused', 'a dictionary with a %s as key' % k, lambda V, k=k, pos=pos: mk(V, [k] if pos == (0,) else [k, 'String'] if pos == (0, 1) else ['String', k])))
    for kind, label, build in cases:
        I = Interp(P, hooks=[hook, maps.maps, ident_copy], max_visits=n + 3, max_depth=25)
        I.const_mem[('n', 'obj')] = build(Vals(P, I))
        R.count('encoded')
        size = int(label.rsplit(' ', 1)[1]) if label[-1].isdigit() else None
        for st in I.run(fn, [('r', ('n', 'obj'), ()), ('s', I.mk('ser'), fn['locals'][2])]):
            if st.end == 'cut': continue
            def bad(w, m): R.bad('encode-%s:%s' % (w, kind), 'encoding %s: %s; %s' % (label, m, fmt_path(I, st)))
            if st.end != 'return': bad('end', 'the interpreter crashes'); continue
            R.count('paths')
            evs = [e[1:] for e in st.events() if e[0] == 'ser']
            failed = any(e[0] == 'failed' for e in st.events())
            refused = any(e[0] == 'refused' for e in st.events())
            err = st.ret[0] == 'a' and st.ret[2] == 1
            okay = st.ret[0] == 'a' and st.ret[2] == 0 and st.ret[3][0][0] == 's' and I.T.t[st.ret[3][0][1]][0] == 'done'
            if failed:
                if not err: bad('quiet', 'a failure of the serializer is not handed on')
                continue
            if kind in ('refused', 'Function', 'Error'):
                if not err: bad('accepted', 'it is accepted')
                elif any(e == ('close',) for e in evs): bad('accepted', 'its text is finished before it is refused')
                R.count('refused')
                continue
            if refused or err: bad('refused', 'it is refused'); continue
            why = described(P, I, st, kind, size, evs)
            if why: bad('text', why)
            elif not okay: bad('result', 'the result is not that of the serializer')

def described(P, I, st, kind, size, evs):
    v = lambda nm: I.mk('v', nm)
    shown = lambda: 'it is described as %s' % '; '.join(' '.join(str(x) if not isinstance(x, tuple) else I.show(I.term(st, x), 4) for x in e) for e in evs)
    def own(x, fn=None):
        """x is the payload of the value, through nothing but text conversion"""
        t = I.term(st, x) if x is not None else None
        ops = []
        while t is not None:
            k = I.T.t[t]
            if t == v('s0'): return ops
            if k[0] in ('f', 'd', '*', '&', 'cowref', 'conv', 'cell'): t = k[1]
            elif k[0] == 'agg' and isinstance(k[3], tuple) and len(k[3]) == 1: t = k[3][0]
            elif k[0] == 'call' and len(k[2]) == 1 and k[1].rsplit('::', 1)[-1] in ('from_utf8_lossy', 'as_ref', 'deref', 'borrow', 'into_owned', 'to_string', 'as_bytes', 'from', 'into', 'as_str'):
                if k[1].endswith('lossy'): ops.append('lossy')
                t = k[2][0]
            elif k[0] == 'as' and kind == 'Byte': t = k[1]; ops.append('char')
            else: return None
        return None
    if kind in ('Nil', 'Bool', 'Int', 'Float', 'String', 'Byte'):
        want = {'Nil': 'null', 'Bool': 'bool', 'Int': 'int', 'Float': 'float', 'String': 'str', 'Byte': 'str'}[kind]
        if len(evs) != 1 or evs[0][0] != want: return shown()
        if kind == 'Nil': return None
        ops = own(evs[0][1])
        if ops is None: return shown()
        if kind == 'String' and ops != ['lossy']: return shown()
        if kind in ('Int', 'Float', 'Bool') and ops: return shown()
        return None
    if not evs or evs[0][0] != 'open' or evs[0][1] != ('seq' if kind == 'Array' else 'map') or evs[-1] != ('close',): return shown()
    if evs[0][2] not in (None, size): return 'it is opened for %s parts instead of %d' % (evs[0][2], size)
    mid = evs[1:-1]
    t = lambda x: I.term(st, x)
    if kind == 'Array':
        return None if [(e[0], t(e[1])) for e in mid] == [('element', v('e%d' % i)) for i in range(size)] else shown()
    if [e[0] for e in mid] != ['key', 'val'] * size: return shown()
    got = [(base(I, t(a[1])), t(b[1])) for a, b in zip(mid[::2], mid[1::2])]
    return None if sorted(got, key=str) == sorted([(v('k%d' % i), v('w%d' % i)) for i in range(size)], key=str) else shown()

def base(I, t):
    """the unknown a known kind was given to"""
    while True:
        k = I.T.t[t]
        if k[0] in ('f', 'd', '*', '&', 'cowref', 'conv'): t = k[1]
        elif k[0] == 'agg' and isinstance(k[3], tuple) and len(k[3]) == 1: t = k[3][0]
        else: return t

NEED = ('visit_bool', 'visit_i64', 'visit_u64', 'visit_f64', 'visit_unit', 'visit_seq', 'visit_map')

def visitor(P, R, tier):
    limit = 3 if tier == 'thorough' else 2
    fns = {}
    for f in P.fns:
        if f.get('local') and 'serde::de::Visitor' in f['n'] and f.get('dk') != 'Closure' and f['kind'] == 'generic': fns[f['n'].rsplit('::', 1)[-1]] = f
    for m in NEED:
        if m not in fns: R.bad('part:' + m, 'the decoder does not accept the part of a document given to %s' % m)
    if not {'visit_str', 'visit_string', 'visit_borrowed_str'} & set(fns): R.bad('part:visit_str', 'the decoder does not accept texts')
    ds = body(P, 'deserialize', 'impl serde::Deserialize')
    vt = next((P.types[f['locals'][1]]['s'] for f in fns.values()), None)
    for f in ds:
        I = Interp(P, hooks=[ident_copy], max_visits=3, max_depth=10)
        for st in I.run(f, [('s', I.mk('arg', ('n', 1)), f['locals'][1])]):
            R.count('entry')
            r = I.T.t[I.term(st, st.ret)] if st.end == 'return' else (None,)
            if not (r[0] == 'call' and r[1].endswith('::deserialize_any') and r[2] and r[2][0] == I.mk('arg', ('n', 1))): R.bad('any', 'decoding does not ask for any kind of value')
    for m, fn in sorted(fns.items()):
        if m == 'expecting': continue
        def hook(I, st, c):
            n = c.info.get('decl') or c.info.get('p') or ''
            if 'serde' not in n: return tryhook(I, st, c)
            i = sum(1 for e in st.events() if e[0] in ('item', 'key')); j = sum(1 for e in st.events() if e[0] == 'val')
            vv = lambda nm: ('s', I.mk('v', nm), V.v)
            V = I.V
            if c.m == 'next_element':
                ot = I.types[c.dti]['v'][0]['f'][0][1]
                s0 = st.copy(); s0.event(('end',)); s1 = st.copy(); s1.event(('item', i))
                out = [(s0, ('a', c.dti, 0, (('a', ot, 0, ()),))), fail(I, st, c, c.m)]
                if i < limit: out.append((s1, ('a', c.dti, 0, (('a', ot, 1, (vv('e%d' % i),)),))))
                return out
            if c.m in ('next_key', 'next_entry'):
                ot = I.types[c.dti]['v'][0]['f'][0][1]
                s0 = st.copy(); s0.event(('end',)); s1 = st.copy(); s1.event(('key', i))
                out = [(s0, ('a', c.dti, 0, (('a', ot, 0, ()),))), fail(I, st, c, c.m)]
                key = ('s', I.mk('v', 'k%d' % i), I.types[ot]['v'][1]['f'][0][1])
                if c.m == 'next_entry':
                    s1.event(('val', i))
                    pt = I.types[ot]['v'][1]['f'][0][1]
                    fs = I.types[pt]['f']
                    key = ('a', pt, 0, (('s', I.mk('v', 'k%d' % i), fs[0]), ('s', I.mk('v', 'w%d' % i), fs[1])))
                if i < limit: out.append((s1, ('a', c.dti, 0, (('a', ot, 1, (key,)),))))
                return out
            if c.m == 'next_value':
                s1 = st.copy(); s1.event(('val', j))
                return [(s1, ('a', c.dti, 0, (('s', I.mk('v', 'w%d' % j), I.types[c.dti]['v'][0]['f'][0][1]),))), fail(I, st, c, c.m)]
            if c.m.startswith('visit_') and c.m in fns: return 'enter', fns[c.m]
            if c.m == 'custom': return [(st, ('s', I.mk('refusal'), c.dti))]
            return None
        def hook2(I, st, c):
            r = hook(I, st, c)
            if isinstance(r, tuple) and r and r[0] == 'enter': return 'states', [x for x in [I.enter(st, r[1], list(c.args), c.dest, c.target)] if x is not None]
            return r
        I = Interp(P, hooks=[hook2, maps.maps, ident_copy], max_visits=limit + 4, max_depth=20)
        I.V = Vals(P, I)
        R.count('visits')
        for st in I.run(fn, [('s', I.mk('arg', ('n', i)), fn['locals'][i]) for i in range(1, fn['args'] + 1)]):
            if st.end == 'cut': continue
            def bad(w, msg): R.bad('decode-%s:%s' % (w, m), 'decoding (%s): %s; %s' % (m, msg, fmt_path(I, st)))
            if st.end != 'return': bad('end', 'the interpreter crashes'); continue
            R.count('paths')
            why = built(P, R, I, st, m)
            if why: bad('value', why)

def possible(I, st, arg, x):
    """do the conditions of a path allow this argument, as far as they are known?"""
    def num(t):
        k = I.T.t[t]
        if t == arg: return x
        if k[0] == 'k': return k[1][1] if isinstance(k[1], tuple) else None
        if k[0] == 'as': return num(k[1])
        return None
    for t, v in st.facts.items():
        k = I.T.t[t]
        if k[0] == 'out of range' and k[1] == arg:
            if (x > (1 << 63) - 1) != bool(v): return False
        if k[0] in ('Gt', 'Lt', 'Ge', 'Le', 'Eq', 'Ne') and len(k) >= 3:
            a, b = num(k[1]), num(k[2])
            if a is None or b is None: continue
            if {'Gt': a > b, 'Lt': a < b, 'Ge': a >= b, 'Le': a <= b, 'Eq': a == b, 'Ne': a != b}[k[0]] != bool(v): return False
    return True

def kind_of(P, I, v):
    return I.V.kinds[v[2]] if v[0] == 'a' and v[1] == I.V.v else None

def built(P, R, I, st, m):
    failed = any(e[0] == 'failed' for e in st.events())
    r = st.ret
    if r[0] != 'a' or r[2] not in (0, 1):
        k = I.T.t[I.term(st, r)]
        if m == 'visit_some' and k[0] == 'call' and k[1].endswith('deserialize') and k[2][0] == I.mk('arg', ('n', 2)): return None
        return 'the outcome could not be determined (%s)' % I.show(I.term(st, r), 4)
    if failed: return None if r[2] == 1 else 'a failure of the deserializer is not handed on'
    arg = I.mk('arg', ('n', 2))
    if m in ('visit_u64', 'visit_u128', 'visit_i128'):
        over = [t for t, x in st.facts.items() if t_mentions(I, t, arg)]
        if r[2] == 1:
            if not over: return 'every unsigned integer is refused'
            return next(('the integer %d is refused' % x for x in (0, 1, (1 << 63) - 1) if possible(I, st, arg, x)), None)
        w = next((x for x in (1 << 63, (1 << 64) - 1) if possible(I, st, arg, x)), None)
        if w is not None: return 'the integer %d, outside the range of int, is wrapped' % w
        v = r[3][0]
        if kind_of(P, I, v) != 'Int': return 'it becomes %s' % I.show(I.term(st, v), 4)
        x = I.norm(st, v[3][0])
        k = I.T.t[I.term(st, x)]
        if k[0] != 'as' or k[1] != arg: return 'it becomes %s' % I.show(I.term(st, x), 4)
        return None if over else 'an integer outside the range of int is wrapped'
    if r[2] == 1: return 'it is refused'
    v = r[3][0]; kind = kind_of(P, I, v)
    want = {'visit_bool': 'Bool', 'visit_i64': 'Int', 'visit_f64': 'Float', 'visit_str': 'String', 'visit_string': 'String', 'visit_borrowed_str': 'String', 'visit_unit': 'Nil', 'visit_none': 'Nil', 'visit_seq': 'Array', 'visit_map': 'Dict'}.get(m)
    if want is None: return None
    if kind != want: return 'it becomes %s' % (kind or I.show(I.term(st, v), 4))
    if want == 'Nil': return None
    if want in ('Bool', 'Int', 'Float', 'String'):
        t = I.term(st, v[3][0], 14)
        while t != arg:
            k = I.T.t[t]
            if k[0] in ('*', '&', 'conv'): t = k[1]
            elif k[0] == 'agg' and isinstance(k[3], tuple) and len(k[3]) == 1: t = k[3][0]
            elif k[0] == 'call' and len(k[2]) == 1 and want == 'String' and k[1].rsplit('::', 1)[-1] in ('from', 'into', 'into_boxed_str', 'into_bytes', 'into_boxed_slice', 'as_bytes', 'to_owned', 'to_string', 'as_ref', 'as_str', 'to_vec', 'into_boxed_bytes'): t = k[2][0]
            else: return 'it becomes %s' % I.show(I.term(st, v), 6)
        return None
    n = sum(1 for e in st.events() if e[0] in ('item', 'key'))
    if ('end',) not in st.events(): return 'it is left before its end'
    c = content(I, st, v[3][0])
    if c[0] != 'a' or c[2] != 'vec': return 'its parts could not be determined'
    if want == 'Array':
        return None if [I.term(st, x) for x in c[3]] == [I.mk('v', 'e%d' % i) for i in range(n)] else 'its elements become %s' % ', '.join(I.show(I.term(st, x), 3) for x in c[3])
    same = {t for t, x in st.facts.items() if I.T.t[t][0] == 'same' and x}
    got = [(I.term(st, p[3][0]), I.term(st, p[3][1])) for p in c[3]]
    exp = []
    for i in range(n):
        k, w = I.mk('v', 'k%d' % i), I.mk('v', 'w%d' % i)
        for j, (a, b) in enumerate(exp):
            x, y = sorted((a, k))
            if I.T.t[x] == I.T.t[y] or I.mk('same', x, y) in same: exp[j] = (a, w); break
        else: exp.append((k, w))
    return None if sorted(got) == sorted(exp) else 'its entries become %s' % ', '.join('%s: %s' % (I.show(a, 3), I.show(b, 3)) for a, b in got)

def t_mentions(I, t, x):
    seen = set(); stack = [t]
    while stack:
        a = stack.pop()
        if a == x: return True
        if a in seen: continue
        seen.add(a)
        k = I.T.t[a]
        for y in k[1:]:
            if isinstance(y, bool): continue
            if isinstance(y, int) and k[0] not in ('n', 'arg', 'v'): stack.append(y)
            elif isinstance(y, tuple) and not (y and y[0] == 'n'): stack += [z for z in y if isinstance(z, int) and not isinstance(z, bool)]
    return False

def functions(P, R):
    E = Eval(P)
    nat = dict(natives_all(P))
    for nm in ('std.json.encode', 'std.json.decode'):
        if nm not in nat: R.bad('shape', '%s was not found' % nm); continue
        V0 = Vals(P, Interp(P))
        for kind in (V0.kinds if nm.endswith('encode') else ['String']):
            def hook(I, st, c):
                n = c.info.get('p') or c.info.get('decl') or ''
                full = c.info.get('krate') == 'serde_json' or n.startswith('serde_json')
                if full and is_result(I, c.dti):
                    st.event(('json', c.m, I.term(st, c.args[0], 12), len(c.args)))
                    s2 = st.copy(); s2.event(('failed',))
                    return [(st, ('a', c.dti, 0, (('s', I.mk('json'), I.types[c.dti]['v'][0]['f'][0][1]),))), (s2, ('a', c.dti, 1, (('s', I.mk('reason'), I.types[c.dti]['v'][1]['f'][0][1]),)))]
                return None
            I, res = explore_native(E, nat[nm], lambda V: [V.nil() if kind == 'Nil' else V.sym(kind, 's0')], hooks=[hook], max_visits=4)
            R.count('functions')
            for st in res:
                if st.end == 'cut': continue
                def bad(w, m): R.bad('%s:%s' % (w, nm), '%s of %s: %s; %s' % (nm, kind, m, fmt_path(I, st)))
                if st.end != 'return': bad('end', 'the interpreter crashes'); continue
                R.count('paths')
                js = [e for e in st.events() if e[0] == 'json']
                failed = any(e[0] == 'failed' for e in st.events())
                r = result_of(I, st)
                if len(js) != 1: bad('calls', 'the conversion is made %d times' % len(js)); continue
                arg = js[0][2]
                if nm.endswith('encode'):
                    if not js[0][1].startswith(('to_string', 'to_vec')): bad('how', 'serde_json::%s is not known to give the text' % js[0][1]); continue
                    k = arg
                    while I.T.t[k][0] in ('&', '*'): k = I.T.t[k][1]
                    kk = I.T.t[k]
                    if not (k == I.mk('v', 's0') or kk[0] == 'agg' and kk[1] == P.types[V0.v].get('p', P.types[V0.v]['s']) and all(base(I, x) == I.mk('v', 's0') for x in kk[3])): bad('what', 'what is encoded is not the argument (%s)' % I.show(k, 4)); continue
                    if failed:
                        if r[0] != 'panic': bad('quiet', 'a value without JSON text does not raise a panic')
                    elif r[0] == 'panic': bad('refused', 'the text made is not given')
                    elif not text_of(I, st, r, 'String'): bad('result', 'the text made is not given')
                else:
                    if not js[0][1].startswith(('from_slice', 'from_str')) or not plain(I, arg): bad('what', 'what is decoded is not the whole argument (%s)' % I.show(arg, 5)); continue
                    v = value_of(I, st)
                    if v is None: bad('panic', 'a document raises a panic'); continue
                    if not failed:
                        if I.T.t[I.term(st, v)] != I.T.t[I.mk('json')]: bad('result', 'the value read is not given (%s)' % I.show(I.term(st, v), 4))
                    elif not (v[0] == 'a' and V0.kinds[v[2]] == 'Error' and t_mentions(I, I.term(st, v, 14), I.mk('reason'))): bad('error', 'a malformed document does not give an error with the reason')

def value_of(I, st):
    r = st.ret
    return r[3][0] if r[0] == 'a' and r[2] == 0 else None

def text_of(I, st, r, kind):
    v = value_of(I, st)
    return v is not None and v[0] == 'a' and t_mentions(I, I.term(st, v, 14), I.mk('json'))

def plain(I, t):
    """the bytes of the argument, all of them"""
    while True:
        if t == I.mk('v', 's0'): return True
        k = I.T.t[t]
        if k[0] in ('f', 'd', '*', '&', 'conv', 'cowref'): t = k[1]
        elif k[0] == 'agg' and isinstance(k[3], tuple) and len(k[3]) == 1: t = k[3][0]
        elif k[0] == 'call' and len(k[2]) == 1 and k[1].rsplit('::', 1)[-1] in ('as_bytes', 'as_ref', 'deref', 'borrow', 'as_slice', 'to_vec'): t = k[2][0]
        else: return False

def check(P, R, tier):
    encode(P, R, tier)
    visitor(P, R, tier)
    functions(P, R)
    R.floor('encoded', 37); R.floor('paths', 100); R.floor('refused', 20); R.floor('entry', 1); R.floor('visits', 9); R.floor('functions', 11)
