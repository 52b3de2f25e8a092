"""What the functions of the standard library do with arguments they accept."""
import itertools
import maps
from normval import *

TECHNIQUE = 'path-sensitive abstract interpretation of compiler MIR of every native function on arguments of known shape with symbolic content; results and effects compared, as terms, with a specification table'
RULE = ('Every library function is followed, on all paths, for arguments of each supported shape: strings, arrays and dictionaries with up to three symbolic or '
        'explicit elements, or wholly unknown text. Its result, read at language level, the collections it changes, the text it writes and the foreign operations it '
        'applies to the outside world must be, on each path, those the specification of that function gives for that path (rules/p30.py): which operation is '
        'applied to which argument in which role, with which outcome for each way it can fail; every outcome the specification names must be reachable. '
        'Functions which return functions (iter, bind, regex) are followed through every call of what they return.')
ASSUMPTIONS = ['the foreign operations named in the specification (substring search and replacement, trimming, hexadecimal and base64 conversion, globbing, regular expressions, random numbers) do what their documentation says',
               'collections larger than the ones tried are treated like them (up to three elements)',
               'a foreign conversion between kinds of strings keeps the text']

def pay(kind, i=0): return ('pay', kind, ('v', 's%d' % i))
S0, S1, S2 = pay('String', 0), pay('String', 1), pay('String', 2)
def err(desc, ctx): return ('Error', desc, ctx)

class Ctx:
    """one finished path"""
    def __init__(self, P, E, I, N, st, ends=None):
        self.P = P; self.E = E; self.I = I; self.N = N; self.st = st
        r = result_of(I, st)
        self.r = r
        self.kind = r[0]
        self.panic = r[1] if r[0] == 'panic' else None
        self.payload = N.val(st, r[2]) if r[0] == 'panic' else None
        self.v = N.val(st, r[1]) if r[0] == 'value' else None
        self.out = written(st)
        self.log = st.user.get('out', ())
        self.fx = [e[1:] for e in self.log if e[0] == 'fx']
        self.failed = [e for e in self.log if e[0] == 'failed']

    def error(self):
        """(description, context) of an error value"""
        v = self.v
        if not v or v[0] != 'Error': return None
        d = dict(x for x in v[1][3:] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str)) if v[1][0] == 'agg' else {}
        return (d.get('description'), d.get('context'))

def mentions(x, y):
    if x == y: return True
    return isinstance(x, tuple) and any(mentions(z, y) for z in x)

def show(x, d=6):
    if not isinstance(x, tuple): return repr(x) if isinstance(x, bytes) else str(x)
    if d == 0: return '..'
    if x and x[0] == 'v': return str(x[1])
    if x and x[0] == 'pay': return show(x[2])
    if x and x[0] == 'k': return str(x[1])
    if x and x[0] == 'bytes': return repr(x[1])
    return '%s(%s)' % (x[0], ', '.join(show(y, d - 1) for y in x[1:])) if x else '()'

FX = ('set_var', 'remove_var', 'set_current_dir', 'sleep', 'read_line', 'read_to_string', 'read_until', 'read_to_end')

def world_hook(N_of, E):
    def hook(I, st, c):
        nm = c.name; last = nm.split('::')[-1]
        fid = c.info.get('id')
        if fid in E.call_fns:
            N = N_of(I)
            put(st, ('fx', 'call') + tuple(N.val(st, x) for x in c.args[1:3]) + (args_at(I, N, st, c.args[0], c.args[3]),))
            return None
        if fid is not None and c.local: return None
        if last in FX and nm.split('::')[0] in ('std', 'alloc', 'core', '<std'):
            N = N_of(I)
            put(st, ('fx', last) + tuple(N.val(st, x) for x in c.args[(1 if last.startswith('read') else 0):]))
            return None
        if last.startswith('sort') and ('slice::<impl [T]>' in nm or 'Vec' in nm) and c.args and c.args[0][0] == 'r':
            v = I.read(st, c.args[0][1], c.args[0][2])
            how = last
            if last in ('sort_by', 'sort_unstable_by'): how = natural(E, I, st, c.args[1], v)
            elif last not in ('sort', 'sort_unstable'): how = None
            t = I.mk('sorted' if how else 'rearranged', I.term(st, v, 12))
            I.write(st, c.args[0][1], c.args[0][2], ('s', t, v[1]))
            return [(st, I.unit())]
        if last == 'contains' and 'slice::<impl [T]>' in nm and c.args[0][0] in ('r', 'b'):
            return member(I, st, c)
        return None
    return hook

def natural(E, I, st, clo, v):
    """the comparison orders two elements by their natural order"""
    s = st.copy(); s.frames = []; s.end = None
    x, y = ('s', I.mk('v', 'x'), E.value_ti), ('s', I.mk('v', 'y'), E.value_ti)
    I.invoke(s, clo, [('r', I.alloc(s, x), ()), ('r', I.alloc(s, y), ())], None, None, I.P.ty_by_s.get('std::cmp::Ordering'), 0)
    res = [r for r in I.run_states([s]) if r.end != 'infeasible'] if s.frames else []
    N = Norm(E, I)
    return bool(res) and all(r.end == 'return' and N.val(r, r.ret)[:3] == ('vcmp', ('v', 'x'), ('v', 'y')) for r in res)

def member(I, st, c):
    if c.args[0][0] == 'b': els = tuple(('k', b, I.P.ty_by_s['u8']) for b in c.args[0][1])
    else:
        v = I.read(st, c.args[0][1], c.args[0][2])
        if v[0] != 'a' or v[2] not in ('vec', 'array', 'list'): return None
        els = v[3]
    x = I.read(st, c.args[1][1], c.args[1][2]) if c.args[1][0] == 'r' else c.args[1]
    out = []; cur = [st]
    for e in els:
        nxt = []
        for s in cur:
            for s2, r in maps.same(I, s, e, x):
                if r: out.append((s2, I.boolv(True)))
                else: nxt.append(s2)
        cur = nxt
    return out + [(s, I.boolv(False)) for s in cur]

def equalities(N, st):
    """{frozenset of two language values: known to be equal or not}"""
    out = {}
    for t, v in st.facts.items():
        k = N.I.T.t[t]
        if k[0] in ('veq', 'same', 'Eq', 'eq') and len(k) >= 3 and isinstance(k[1], int) and isinstance(k[2], int):
            out[frozenset((N.term(k[1]), N.term(k[2])))] = bool(v)
        if k[0] == 'Ne': out[frozenset((N.term(k[1]), N.term(k[2])))] = not v
    return out

class World:
    def __init__(self, P):
        self.P = P; self.E = Eval(P); self.nat = natives(P); self.ns = {}
        self.tls = tls_strings(P)
        # self types of the native functions
        self.by_type = {}
        for nm, f in self.nat.items():
            t = P.types[f['locals'][1]]
            if t['k'] == 'ref': self.by_type[t['to']] = (nm, f)
    def N_of(self, I):
        if I not in self.ns: self.ns[I] = Norm(self.E, I)
        return self.ns[I]
    def setup(self, I):
        def keytext(t):
            p = tls_of(I, t)
            if p and p in self.tls: return self.tls[p].encode('latin1')
            r = self.N_of(I).term(t)
            while r[0] == 'String': r = r[1]
            return r[1] if r[0] == 'bytes' else None
        I.keytext = keytext
        fn_rec = set()
        I.recursive = lambda fn: fn.get('local') and fn['n'].startswith('runtime::lib::')
    def run(self, nm, args, selfv=None, **kw):
        kw.setdefault('max_visits', 6)
        mv = kw.pop('max_visits')
        for k in (mv, mv - 2, mv - 3, 2):
            try: I, res = self.paths(nm, args, selfv, k, **kw)
            except RuntimeError:
                if k == 2: raise
            else: break
        N = self.N_of(I)
        return I, N, [Ctx(self.P, self.E, I, N, s) for s in res]
    def paths(self, nm, args, selfv, k, **kw):
        return explore_native(self.E, self.nat[nm], args, max_visits=k, hooks=[output_hook(self.N_of), world_hook(self.N_of, self.E), maps.maps], selfv=selfv, prepare=self.setup, **kw)
    def native_of(self, I, st, v, depth=12):
        """(name, function, reference to its object) of a function value"""
        for _ in range(depth):
            if v[0] == 'r':
                w = I.read(st, v[1], v[2])
                if w[0] == 'a' and w[1] in self.by_type: return self.by_type[w[1]] + (v,)
                v = w
            elif v[0] == 'a' and v[1] in self.by_type: return self.by_type[v[1]] + (('r', I.alloc(st, v), ()),)
            elif v[0] == 'a' and v[3]:
                v = v[3][0]
            else: return None
        return None
    def again(self, c, fnv, args):
        """further call of a native function value from the end of a path, with explicit arguments"""
        I, st = c.I, c.st
        got = self.native_of(I, st, fnv)
        if got is None: return None
        nm, fn, ref = got
        pre = tuple(('s', I.mk('pre', ('n', i)), self.E.value_ti) for i in range(PRE))
        st = st.copy()
        st.mem[('n', 'rt')] = struct_with(I, self.P, pre + tuple(args))
        ctx = []
        cti = fn['locals'][2]
        for n, fti in self.P.types[cti]['v'][0]['f']:
            ctx.append({'runtime': ('r', ('n', 'rt'), ()), 'args_start': ('k', PRE, self.P.ty_by_s['usize'])}.get(n, ('s', I.mk('ctx', n), fti)))
        return nm, [Ctx(self.P, self.E, I, c.N, s) for s in continue_with(I, st, fn, [ref, ('a', cti, 0, tuple(ctx))])]

def struct_with(I, P, args):
    from p12 import struct
    return struct(I, P, 'runtime::Runtime', arguments=('a', None, 'vec', args))

# ---- argument lists
def syms(*kinds): return lambda V: [V.any('s%d' % i) if k == 'any' else V.sym(k, 's%d' % i) for i, k in enumerate(kinds)]
def els(n): return lambda V: [V.any('e%d' % i) for i in range(n)]
def arr(n, *kinds): return lambda V: [V.array(els(n)(V))] + syms(*kinds)(V)
def mkdict(V, n): return V.mk('Dict', V.chain(V.fti('Dict'), 'dict', lambda ti: ('a', ti, 'vec', tuple(('a', None, 0, (V.any('k%d' % i), V.any('w%d' % i))) for i in range(n)))))
def dic(n, *kinds):
    def build(V):
        distinct(V, n)
        return [mkdict(V, n)] + syms(*kinds)(V)
    return build
def distinct(V, n):
    I = V.I
    ts = [I.mk('v', 'k%d' % i) for i in range(n)]
    I.distinct = {tuple(sorted(p)) for p in itertools.permutations(ts, 2)}
def const(V, b): return V.string(tuple(b))
def st_(n, *kinds): return lambda V: [V.string(V.symbytes(n))] + syms(*kinds)(V)
E_ = lambda i: ('v', 'e%d' % i)

SPECS = []
def spec(nm, title, args, labels, key=None):
    def deco(f): SPECS.append((nm, title, args, set(labels.split()), f, key or title)); return f
    return deco

def const_result(want):
    def f(c): return ('ok', None) if c.v == want else ('?', 'gives %s instead of %s' % (got(c), show(want)))
    return f

def got(c):
    if c.kind == 'value': return show(c.v)
    return c.panic if c.kind == 'panic' else c.kind

def only(c, want, label='ok'):
    return (label, None) if c.v == want else ('?', 'gives %s instead of %s' % (got(c), show(want)))

def exact(nm, title, args, want):
    SPECS.append((nm, title, args, {'ok'}, lambda c: only(c, want), title))

def pure(c):
    return c.fx or c.out

# ---- text
exact('std.replace', 'a text, a pattern and a replacement', syms('String', 'String', 'String'), ('String', ('call', 'bstr::replace', S0, S1, S2)))
exact('std.trim', 'a text', syms('String'), ('String', ('call', 'bstr::trim', S0)))
exact('std.hex.encode', 'a text', syms('String'), ('String', ('call', 'hex::encode', S0)))
exact('std.base64.encode', 'a text', syms('String'), ('String', ('call', 'base64::encode', S0)))
exact('std.to_string', 'a string', syms('String'), ('v', 's0'))
for _k in ('Bool', 'Byte', 'Int', 'Float', 'Array', 'Dict', 'Error', 'Function'):
    exact('std.to_string', 'a value of type ' + _k, syms(_k), ('String', ('show', ('v', 's0'))))
exact('std.args', 'no argument', syms(), ('field', 'runtime::Runtime', 'args'))

def pieces(nm, op, args):
    @spec(nm, 'a text' if len(args) == 2 else 'arguments', args[0], 'many none')
    def f(c):
        base = args[1]
        if not c.v or c.v[0] != 'Array' or c.v[1][0] != 'list': return '?', 'gives %s' % got(c)
        xs = c.v[1][1:]
        for i, x in enumerate(xs):
            if x != ('String', ('item', base, i)): return '?', 'has %s as element %d, instead of piece %d of %s' % (show(x), i, i, show(base))
        if not c.N.exhausted(c.st, base, len(xs)): return '?', 'leaves out pieces after %d of them' % len(xs)
        return ('many' if len(xs) > 1 else 'none' if not xs else 'one'), None
pieces('std.split', None, (syms('String', 'String'), ('call', 'bstr::split_str', S0, S1)))

def decode(nm, op):
    @spec(nm, 'a text', syms('String'), 'ok error')
    def f(c):
        call = ('call', op, S0)
        if c.v == ('String', ('pick', 0, 0, call)): return 'ok', None
        e = c.error()
        if e and mentions(e[0], ('pick', 1, 0, call)): return 'error', None
        return '?', 'gives %s, neither the text decoded by %s nor an error saying why there is none' % (got(c), op)
decode('std.hex.decode', 'hex::decode')
decode('std.base64.decode', 'base64::decode')

TEXTS = (b'', b'a', b'ab', b'abc')
BIG = (1 << 63) - 1
def substr_cases():
    for t in TEXTS:
        for i in (-1, 0, 1, 2, 3, 4, BIG):
            for n in (-1, 0, 1, 2, 3, BIG):
                ok = i >= 0 and n >= 0 and i + n <= len(t)
                want = ('String', t[i:i + n]) if ok else ('Nil',)
                def f(c, want=want):
                    v = c.v
                    if v and v[0] == 'String': v = ('String', as_bytes(v[1]) if v[1] != ('list',) else b'')
                    return ('ok', None) if v == want else ('?', 'gives %s instead of %s' % (got(c), show(want)))
                SPECS.append(('std.substr', '%r from %d, length %d' % (t.decode(), i, n), lambda V, t=t, i=i, n=n: [const(V, t), V.int(i), V.int(n)], {'ok'}, f, 'substr'))
substr_cases()

def glob(c):
    text = ('call', 'std::from_utf8', S0)
    base = ('pick', 0, 0, ('call', 'glob::glob', ('pick', 0, 0, text)))
    e = c.error()
    if e:
        if mentions(c.v, ('pick', 1, 0, base[3])): return 'badpattern', None
        for i in range(8):
            if mentions(c.v, ('pick', 1, 0, ('item', base, i))): return 'unreadable', None
        if mentions(c.v, base[3]): return '?', 'gives an error although the pattern is valid'
        return 'nottext', None
    if not c.v or c.v[0] != 'Array' or c.v[1][0] != 'list': return '?', 'gives %s' % got(c)
    xs = c.v[1][1:]
    for i, x in enumerate(xs):
        if x != ('String', ('pick', 0, 0, ('item', base, i))): return '?', 'has %s as element %d, instead of the path found' % (show(x), i)
    if not c.N.exhausted(c.st, base, len(xs)): return '?', 'leaves out paths after %d of them' % len(xs)
    return ('many' if len(xs) > 1 else 'none' if not xs else 'one'), None
spec('std.glob', 'a pattern', syms('String'), 'badpattern unreadable nottext many none')(glob)

# ---- collections
for _n in range(4):
    exact('std.len', 'an array of %d' % _n, arr(_n), ('Int', ('k', _n)))
    exact('std.len', 'a dictionary of %d' % _n, dic(_n), ('Int', ('k', _n)))
    exact('std.len', 'a string of %d bytes' % _n, st_(_n), ('Int', ('k', _n)))
    exact('std.is_empty', 'an array of %d' % _n, arr(_n), ('Bool', ('k', int(_n == 0))))
    exact('std.is_empty', 'a dictionary of %d' % _n, dic(_n), ('Bool', ('k', int(_n == 0))))
    exact('std.is_empty', 'a string of %d bytes' % _n, st_(_n), ('Bool', ('k', int(_n == 0))))
    exact('std.bytes', 'a string of %d bytes' % _n, st_(_n), ('Array', ('list',) + tuple(('Byte', ('b', i)) for i in range(_n))))
    def _push(c, n=_n):
        after = c.N.val(c.st, content(c.I, c.st, c.I.given[0][3][0]))
        want = ('list',) + tuple(E_(i) for i in range(n)) + (('v', 's0'),)
        if after != want: return '?', 'leaves %s in the array instead of %s' % (show(after), show(want))
        return only(c, ('Nil',))
    spec('std.push', 'an array of %d' % _n, arr(_n, 'any'), 'ok', 'push')(_push)
    def _pop(c, n=_n):
        after = c.N.val(c.st, content(c.I, c.st, c.I.given[0][3][0]))
        want = ('list',) + tuple(E_(i) for i in range(n - 1))
        if after != want: return '?', 'leaves %s in the array instead of %s' % (show(after), show(want))
        if n == 0: return ('ok', None) if c.panic == 'EmptyCollection' else ('?', 'gives %s instead of a panic' % got(c))
        return only(c, E_(n - 1))
    spec('std.pop', 'an array of %d' % _n, arr(_n), 'ok', 'pop')(_pop)
    def _sort(c, n=_n):
        after = c.N.val(c.st, content(c.I, c.st, c.I.given[0][3][0]))
        l = ('list',) + tuple(E_(i) for i in range(n))
        if after != ('sorted', l) and not (n < 2 and after == l): return '?', 'leaves %s in the array, instead of its elements in their order' % show(after)
        return only(c, ('Nil',))
    spec('std.sort', 'an array of %d' % _n, arr(_n), 'ok', 'sort')(_sort)
    def _has(c, n=_n, what='e'):
        eq = equalities(c.N, c.st)
        r = [eq.get(frozenset((('v', '%s%d' % (what, i)), ('v', 's0')))) for i in range(n)]
        if c.v == ('Bool', ('k', 1)):
            return ('yes', None) if True in r else ('?', 'says yes without having found an equal %s' % ('element' if what == 'e' else 'key'))
        if c.v == ('Bool', ('k', 0)):
            return ('no', None) if all(x is False for x in r) else ('?', 'says no without having compared all')
        return '?', 'gives %s' % got(c)
    spec('std.contains', 'an array of %d' % _n, arr(_n, 'any'), 'yes no' if _n else 'no', 'contains array')(_has)
    spec('std.contains', 'a dictionary of %d' % _n, dic(_n, 'any'), 'yes no' if _n else 'no', 'contains dict')(lambda c, n=_n, f=_has: f(c, n, 'k'))
for _t in (b'', b'a', b'b', b'ab', b'ba', b'bab', b'bbb', b'\x00a', b'\xffb'):
    for _b in (0x61, 0, 255):
        exact('std.contains', 'the string %r, byte %d' % (_t, _b), lambda V, t=_t, b=_b: [const(V, t), V.byte(b)], ('Bool', ('k', int(_b in _t))))

# ---- errors
exact('std.assert', 'true', lambda V: [V.bool(True)], ('Nil',))
SPECS.append(('std.assert', 'false', lambda V: [V.bool(False)], {'ok'}, lambda c: ('ok', None) if c.panic == 'AssertionFailed' else ('?', 'gives %s instead of a panic' % got(c)), 'assert'))
SPECS.append(('std.panic', 'a value', syms('any'), {'ok'}, lambda c: ('ok', None) if c.panic == 'User' and mentions(c.payload, ('v', 's0')) else ('?', 'gives %s instead of a panic with that value' % got(c)), 'panic'))
SPECS.append(('std.error', 'a text and a value', syms('String', 'any'), {'ok'}, lambda c: ('ok', None) if c.error() == (S0, ('v', 's1')) else ('?', 'gives %s instead of the error with that description and context' % got(c)), 'error'))

def shapes():
    """(description, builder, contains an error)"""
    def s(kind): return ('a value of type ' + kind, lambda V: V.sym(kind, 'x%d' % V.bump()), kind == 'Error')
    leaf = [s(k) for k in ('Nil', 'Bool', 'Byte', 'Int', 'Float', 'String', 'Function', 'Error')]
    def a(*xs): return ('[%s]' % ', '.join(x[0] for x in xs), lambda V: V.array([x[1](V) for x in xs], 'arr%d' % V.bump()), any(x[2] for x in xs))
    def d(*xs): return ('@[%s]' % ', '.join('%s: %s' % (k[0], v[0]) for k, v in xs),
                        lambda V: V.mk('Dict', V.chain(V.fti('Dict'), 'dict%d' % V.bump(), lambda ti: ('a', ti, 'vec', tuple(('a', None, 0, (k[1](V), v[1](V))) for k, v in xs)))),
                        any(k[2] or v[2] for k, v in xs))
    i, e, n = s('Int'), s('Error'), s('String')
    out = leaf + [a(), a(i), a(e), a(i, e), a(e, i), a(i, n), a(i, i, e), d(), d((n, i)), d((n, e)), d((e, i)), d((n, i), (n, e)), d((n, i), (e, i)), d((n, i), (n, i))]
    out += [a(a()), a(a(i)), a(a(e)), a(i, a(e)), a(a(i), e), a(a(i), a(e)), d((n, a(e))), d((n, a(i))), a(d((n, e))), a(d((n, i))), d((n, d((n, e)))), a(a(a(e))), a(a(a(i))), d((n, a(i)), (n, a(e)))]
    out += [a(x) for x in leaf if x not in (i, e)] + [d((x, i)) for x in leaf] + [d((i, x)) for x in leaf] + [a(i, x, i) for x in leaf]
    return out
def has_errors():
    for desc, build, want in shapes():
        SPECS.append(('std.has_error', desc.replace('a value of type ', ''), lambda V, b=build: [b(V)], {'ok'}, lambda c, w=want: only(c, ('Bool', ('k', int(w)))), 'has_error'))
has_errors()
_cnt = [0]
def _bump(self): _cnt[0] += 1; return _cnt[0]
Vals.bump = _bump

# ---- environment
@spec('std.env', 'a name', syms('String'), 'set unset')
def _(c):
    call = ('call', 'std::var_os', S0)
    if c.v == ('String', ('pick', 1, 0, call)): return 'set', None
    if c.v == ('Nil',) and not mentions(c.v, call): return 'unset', None
    return '?', 'gives %s' % got(c)

KEYS = [b'', b'a', b'ab', b'=', b'a=', b'=a', b'a\0', b'\0', b'a=b']
def exports():
    for k in KEYS:
        for v in (b'', b'x', b'x=', b'\0', b'x\0y'):
            bad = not k or b'=' in k or 0 in k or 0 in v
            def f(c, k=k, v=v, bad=bad):
                sets = [tuple(as_bytes(a) if a != ('list',) else b'' for a in e[1:]) for e in c.fx if e[0] == 'set_var']
                if bad:
                    if sets: return '?', 'sets a variable which can not be set'
                    return ('ok', None) if c.error() else ('?', 'gives %s instead of an error' % got(c))
                if sets != [(k, v)]: return '?', 'sets %s instead of that variable to that value' % (sets or 'nothing')
                return only(c, ('Nil',))
            SPECS.append(('std.export', '%r, %r' % (k, v), lambda V, k=k, v=v: [const(V, k), const(V, v)], {'ok'}, f, 'export'))
exports()

@spec('std.cd', 'a path', syms('String'), 'ok error')
def _(c):
    if [e for e in c.fx if e[0] == 'set_current_dir'] != [('set_current_dir', S0)]: return '?', 'does not change the directory to that path exactly once'
    call = ('call', 'std::set_current_dir', S0)
    if c.v == ('Nil',): return ('ok', None) if not failed_call(c, call) else ('?', 'gives nil although it failed')
    e = c.error()
    if e: return ('error', None) if mentions(e[0], ('pick', 1, 0, call)) else ('?', 'gives an error which does not say why')
    return '?', 'gives %s' % got(c)

def failed_call(c, call):
    """the path took the error outcome of a call"""
    for t, v in c.st.facts.items():
        k = c.I.T.t[t]
        if k[0] == 'disc' and c.N.term(k[1]) == call and v == 1: return True
    return False

@spec('std.cwd', 'no argument', syms(), 'ok error')
def _(c):
    call = ('call', 'std::current_dir')
    if c.v == ('String', ('pick', 0, 0, call)) or c.v == ('String', ('call', 'std::into_os_string', ('pick', 0, 0, call))): return 'ok', None
    e = c.error()
    if e and mentions(e[0], ('pick', 1, 0, call)): return 'error', None
    return '?', 'gives %s' % got(c)

@spec('std.sleep', 'a number of milliseconds', syms('Int'), 'ok negative')
def _(c):
    iv = sign(c, ('pay', 'Int', ('v', 's0')))
    if c.panic == 'ValueError': return ('negative', None) if not c.fx and iv != 'nonneg' else ('?', 'rejects a number which is not negative')
    if iv == 'neg': return '?', 'accepts a negative number'
    if [e for e in c.fx if e[0] == 'sleep'] != [('sleep', ('call', 'std::from_millis', pay('Int')))]: return '?', 'does not sleep for that many milliseconds exactly once'
    return only(c, ('Nil',))

def sign(c, x):
    for t, v in c.st.facts.items():
        k = c.I.T.t[t]
        if k[0] in ('Lt', 'Ge') and isinstance(k[1], int) and isinstance(k[2], int):
            if c.N.term(k[1]) == x and c.N.term(k[2]) == ('k', 0): return 'neg' if bool(v) == (k[0] == 'Lt') else 'nonneg'
    for t, (lo, hi) in [(t, iv) for t, iv in c.st.iv.items() if c.N.term(t) == x and isinstance(iv, tuple) and len(iv) == 2]:
        if lo is not None and lo >= 0: return 'nonneg'
        if hi is not None and hi < 0: return 'neg'
    return None

# ---- input and output
def reads(prompt):
    def f(c):
        log = [e[0] if e[0] != 'fx' else e[1] for e in c.log]
        want = (['out', 'flush'] if prompt else []) + ['read_line']
        if prompt and c.out and c.out != [S0]: return '?', 'writes %s instead of the prompt' % ', '.join(show(x) for x in c.out)
        line = None
        if c.failed:
            return ('writefail', None) if c.panic == 'Io' and log[-1] == 'failed' else ('?', 'does not raise an Io panic when the prompt can not be written')
        if log != want: return '?', 'does %s instead of %s' % (', '.join(log) or 'nothing', ', '.join(want))
        call = ('call', 'std::read_line', ('call', 'std::stdin'), ('call', 'std::new'))
        if c.panic == 'Io': return 'readfail', None
        if failed_call(c, call): return '?', 'gives %s although reading failed' % got(c)
        return only(c, ('String', ('after', call, 1)), 'ok')
    return f
spec('std.read', 'no prompt', syms(), 'ok readfail')(reads(False))
spec('std.read', 'a prompt', syms('String'), 'ok readfail writefail')(reads(True))

def piece(kind, i):
    if kind == 'String': return [('pay', 'String', ('v', 's%d' % i))]
    if kind == 'Byte': return [('list', ('pay', 'Byte', ('v', 's%d' % i)))]
    return [('show', ('v', 's%d' % i))]
def prints():
    for nm, end in (('std.print', b''), ('std.println', b'\n')):
        lists = [()] + [(k,) for k in ('Nil', 'Bool', 'String', 'Byte', 'Int', 'Float', 'Array', 'Dict', 'Function', 'Error')]
        lists += list(itertools.product(('String', 'Byte', 'Int'), repeat=2)) + [('String', 'Int', 'Byte'), ('Int', 'String', 'String')]
        for ks in lists:
            want = []
            for i, k in enumerate(ks):
                if i: want.append(b'\t')
                want += piece(k, i) if k != 'Nil' else [('show', ('Nil',))]
            want = join(want + [end])
            def f(c, want=want):
                if c.failed:
                    if c.panic != 'Io': return '?', 'gives %s although writing failed' % got(c)
                    if c.log[-1][0] != 'failed': return '?', 'goes on after writing failed'
                    return 'fail', None
                if c.panic or c.kind != 'value': return '?', 'gives %s' % got(c)
                if c.out != want: return '?', 'writes %s instead of %s' % (', '.join(show(x) for x in c.out) or 'nothing', ', '.join(show(x) for x in want) or 'nothing')
                return only(c, ('Nil',))
            SPECS.append((nm, '(%s)' % ', '.join(ks), (lambda V, ks=ks: [V.nil() if k == 'Nil' else V.sym(k, 's%d' % i) for i, k in enumerate(ks)]), {'ok', 'fail'} if want else {'ok'}, f, 'print'))
prints()

# ---- functions which return functions
def iterators(W, R, bad):
    for what, n in [(w, n) for w in ('array', 'string', 'dict') for n in range(4 if w != 'dict' else 3)]:
        args = {'array': arr, 'string': st_, 'dict': dic}[what](n)
        item = {'array': lambda i: E_(i), 'string': lambda i: ('Byte', ('b', i))}.get(what)
        I, N, cs = W.run('std.iter', args)
        for c in cs:
            if c.kind != 'value': bad('iter', 'std.iter of %s of %d gives %s' % (what, n, got(c)), c); continue
            f0 = c.r[1]
            work = [(c, 0, ())]
            while work:
                c1, k, seen = work.pop()
                if k == n + 2:
                    R.count('iterations_finished'); continue
                r = W.again(c1, f0, ())
                if r is None: bad('iter', 'std.iter of %s gives %s, which is no function of the library' % (what, got(c1)), c1); break
                for c2 in r[1]:
                    R.count('paths')
                    d = entries(W, c2)
                    if d is None: bad('iter', 'the iterator over %s of %d gives %s in call %d' % (what, n, got(c2), k + 1), c2); continue
                    if d.get(b'finished') != ('Bool', ('k', int(k >= n))):
                        bad('iter', 'the iterator over %s of %d says finished = %s in call %d' % (what, n, show(d.get(b'finished', ('missing',))), k + 1), c2); continue
                    new = seen
                    if k >= n:
                        if b'value' in d: bad('iter', 'the iterator over %s of %d gives a value (%s) when it is finished' % (what, n, show(d[b'value'])), c2); continue
                    elif what == 'dict':
                        e = entries(W, c2, d.get(b'value'))
                        pairs = {(('v', 'k%d' % i), ('v', 'w%d' % i)) for i in range(n)}
                        p = e and set(e) == {b'key', b'value'} and (e[b'key'], e[b'value'])
                        if not p or p not in pairs or p in seen:
                            bad('iter', 'the iterator over a dictionary of %d gives %s in call %d, instead of an entry not given yet as its key and value' % (n, show(d.get(b'value', ('missing',))), k + 1), c2); continue
                        new = seen + (p,)
                    elif d.get(b'value') != item(k):
                        bad('iter', 'the iterator over %s of %d gives %s in call %d instead of element %d' % (what, n, show(d.get(b'value', ('missing',))), k + 1, k), c2); continue
                    if len(d) != (1 if k >= n else 2): bad('iter', 'the iterator over %s of %d gives other entries (%s)' % (what, n, ', '.join(str(x) for x in d)), c2); continue
                    work.append((c2, k + 1, new))
        if not cs: bad('iter', 'std.iter of %s of %d gives nothing' % (what, n), None)

def entries(W, c, v=None):
    """{key text: value} of a dictionary in normal form"""
    if v is None:
        v = c.v
        if c.kind != 'value': return None
    if not v or v[0] != 'Dict' or v[1][0] != 'list': return None
    out = {}
    for p in v[1][1:]:
        if p[0] != 'agg' or len(p) != 5: return None
        k = p[3]
        t = None
        if k[0] == 'String' and k[1][0] == 'bytes': t = k[1][1]
        else:
            m = tls_path(k)
            t = W.tls[m].encode('latin1') if m in W.tls else None
        if t is None or t in out: return None
        out[t] = p[4]
    return out

def tls_path(x):
    if isinstance(x, str) and '::{constant#' in x: return x.split('::{constant#')[0]
    if isinstance(x, tuple):
        for y in x:
            r = tls_path(y)
            if r: return r
    return None

def at(c, key, W):
    """the machine value of an entry of a returned dictionary"""
    v = content(c.I, c.st, c.r[1][3][0])
    if v[0] != 'a' or v[2] not in ('vec', 'list'): return None
    for p in v[3]:
        k = c.I.keytext(c.I.term(c.st, p[3][0], 12))
        if k == key: return p[3][1]
    return None

def regexes(W, R, bad):
    I, N, cs = W.run('std.regex', syms('String'))
    seen = set()
    def call(c, key, args, judge):
        f = at(c, key, W)
        r = f and W.again(c, f, args)
        if not r: bad('regex', 'std.regex gives no function called %s' % key.decode(), c); return
        for c2 in r[1]:
            R.count('paths')
            lab, msg = judge(c2)
            if msg: bad('regex:' + key.decode(), '%s of a regular expression %s' % (key.decode(), msg), c2)
            else: seen.add(key.decode() + lab)
    for c in cs:
        R.count('paths')
        e = c.error()
        if e:
            seen.add('error')
            continue
        d = entries(W, c)
        if d is None: bad('regex', 'std.regex gives %s' % got(c), c); continue
        if set(d) != {b'match', b'split', b'replace'}: bad('regex', 'std.regex gives a dictionary with %s' % ', '.join(sorted(x.decode() for x in d)), c); continue
        V = I.V
        t, u = V.sym('String', 's1'), V.sym('String', 's2')
        re_ = ('pick', 0, 0, ('call', 'regex::new', ('pick', 0, 0, ('call', 'std::from_utf8', S0))))
        call(c, b'match', [t], lambda c2: only(c2, ('Bool', ('call', 'regex::is_match', re_, S1)), ''))
        def split(c2):
            base = ('call', 'regex::split', re_, S1)
            if not c2.v or c2.v[0] != 'Array' or c2.v[1][0] != 'list': return ('cut', None) if c2.kind == 'cut' else ('?', 'gives %s' % got(c2))
            xs = c2.v[1][1:]
            for i, x in enumerate(xs):
                if x != ('String', ('item', base, i)): return '?', 'has %s as element %d, instead of piece %d' % (show(x), i, i)
            if not c2.N.exhausted(c2.st, base, len(xs)): return '?', 'leaves out pieces after %d of them' % len(xs)
            return str(min(len(xs), 2)), None
        call(c, b'split', [t], split)
        def repl(c2):
            base = ('call', 'regex::replace_all', re_, S1, S2)
            if c2.v == ('v', 's1') or c2.v == ('String', ('pick', 0, 0, base)): return 'same', None
            if c2.v in (('String', ('pick', 1, 0, base)), ('String', base)): return 'changed', None
            return '?', 'gives %s' % got(c2)
        call(c, b'replace', [t, u], repl)
    for l in ('error', 'match', 'split0', 'split2', 'replacechanged'):
        if l not in seen: bad('regex:' + l, 'std.regex never has the outcome %s' % l, None)

def binds(W, R, bad):
    I, N, cs = W.run('std.bind', syms('any', 'Function'))
    for c in cs:
        if c.kind != 'value': bad('bind', 'std.bind gives %s' % got(c), c); continue
        for n in range(3):
            r = W.again(c, c.r[1], [I.V.any('s%d' % (2 + i)) for i in range(n)])
            if r is None: bad('bind', 'std.bind gives %s, which is no function of the library' % got(c), c); break
            kinds = set()
            for c2 in r[1]:
                R.count('paths')
                calls = [e for e in c2.fx if e[0] == 'call']
                if len(calls) != 1: bad('bind', 'a bound function calls its function %d times' % len(calls), c2); continue
                _, obj, fun, given = calls[0]
                if obj != ('v', 's0'): bad('bind', 'a bound function calls its function on %s instead of the object it is bound to' % show(obj), c2)
                elif fun != pay('Function', 1): bad('bind', 'a bound function calls %s instead of its function' % show(fun), c2)
                else:
                    if given != tuple(('v', 's%d' % (2 + i)) for i in range(n)): bad('bind', 'a bound function hands on other arguments than it was given', c2)
                kinds.add(c2.kind)
                if c2.kind == 'value' and not (c2.v and is_call_result(c2)): bad('bind', 'a bound function gives %s instead of what its function gives' % got(c2), c2)
            if 'result' not in kinds and not {'value', 'panic'} <= kinds: bad('bind', 'a bound function does not hand on both results and panics (%s)' % ', '.join(sorted(kinds)), None)

def args_at(I, N, st, rt, start):
    """the arguments a call of a script function is given: the stack from start on"""
    P = I.P
    start = I.norm(st, start)
    ti = ty(P, 'runtime::Runtime')
    i = [f[0] for f in P.types[ti]['v'][0]['f']].index('arguments')
    if rt[0] != 'r' or start[0] != 'k': return None
    v = I.read(st, rt[1], rt[2] + (('f', i, P.types[ti]['v'][0]['f'][i][1]),))
    if v[0] != 'a' or v[2] not in ('vec', 'list'): return None
    return tuple(N.val(st, x) for x in v[3][start[1]:])

def is_call_result(c):
    return c.v[0] not in ('Nil', 'Int', 'Bool', 'String', 'Array', 'Dict', 'Function', 'Error', 'v')

def randoms(W, R, bad):
    I, N, cs = W.run('std.randseed', syms('Int'))
    for c in cs:
        if c.v != ('Nil',): bad('randseed', 'std.randseed gives %s' % got(c), c)
        for nm, args in (('std.rand', []), ('std.randint', [I.V.sym('Int', 's1'), I.V.sym('Int', 's2')])):
            fn = W.nat[nm]
            f = ('a', W.P.types[fn['locals'][1]]['to'], 0, ())
            r = W.again(c, f, args)
            if r is None: bad('rand', '%s can not be followed' % nm, c); continue
            lab = set()
            for c2 in r[1]:
                R.count('paths')
                if c2.panic == 'ValueError' and nm == 'std.randint':
                    lab.add('bad'); continue
                v = c2.v
                x = v[1] if v and len(v) == 2 else None
                if not x or x[0] != 'call' or not (x[2] and mentions(x[2], ('call', 'seed_from_u64', pay('Int'))) or mentions(x[2], ('call', 'rand::seed_from_u64', pay('Int')))):
                    bad('randseed', '%s after std.randseed(n) gives %s, which is not drawn from the generator seeded with n' % (nm, got(c2)), c2); continue
                if nm == 'std.rand' and (v[0], x[1]) != ('Float', 'rand::gen'): bad('rand', 'std.rand gives %s' % got(c2), c2)
                if nm == 'std.randint':
                    rg = x[3] if len(x) > 3 else ()
                    if x[1] != 'rand::gen_range' or rg[:2] != ('agg', 'std::ops::RangeInclusive') or tuple(dict(y for y in rg[3:] if len(y) == 2 and isinstance(y[0], str)).get(z) for z in ('start', 'end')) != (pay('Int', 1), pay('Int', 2)):
                        bad('randint', 'std.randint gives %s instead of a number between its arguments, both included' % got(c2), c2)
                lab.add('ok')
            if 'ok' not in lab: bad('rand', '%s never gives a number' % nm, None)

SPECIAL = [('std.iter', iterators), ('std.regex', regexes), ('std.bind', binds), ('std.rand', randoms)]

def check(P, R, tier):
    W = World(P)
    missing = set()
    for nm, title, args, labels, f, key in SPECS:
        if nm not in W.nat:
            if nm not in missing: R.bad('missing:%s' % nm, 'standard library function %s is not provided' % nm)
            missing.add(nm); continue
        try: I, N, cs = W.run(nm, args)
        except RuntimeError as e: raise RuntimeError('%s of %s: %s' % (nm, title, e))
        R.count('argument_lists')
        seen = set()
        for c in cs:
            R.count('paths')
            if c.kind == 'cut': seen.add('cut'); continue
            if c.kind not in ('value', 'panic'):
                R.bad('end:%s:%s' % (nm, key), '%s of %s ends in %s; %s' % (nm, title, c.kind, fmt_path(I, c.st))); continue
            lab, msg = f(c)
            if msg: R.bad('%s:%s' % (nm, key), '%s of %s %s; %s' % (nm, title, msg, fmt_path(I, c.st)))
            else: seen.add(lab); R.count('outcomes')
        for l in sorted(labels - seen):
            R.bad('%s:%s:never:%s' % (nm, key, l), '%s of %s never has the outcome "%s"' % (nm, title, l))
    for nm, f in SPECIAL:
        if nm not in W.nat: R.bad('missing:%s' % nm, 'standard library function %s is not provided' % nm); continue
        R.count('function_objects')
        f(W, R, lambda key, msg, c: R.bad('%s:%s' % (nm, key), msg + ('; ' + fmt_path(c.I, c.st) if c else '')))
    R.floor('argument_lists', 300)
    R.floor('paths', 500)
    R.floor('iterations_finished', 10)
    R.floor('function_objects', 4)
