"""Equality, hashing and ordering of values agree."""
from lib import *

TECHNIQUE = 'path-sensitive dataflow analysis of the equality, hash and order of every value type, with the comparisons of their parts as uninterpreted relations'
RULE = ('For every type a value is made of, and every pair of its variants, every path of eq, hash, cmp and partial_cmp is followed with both operands symbolic; what is said of a part (eq, cmp, hash of '
        'that part) is one relation. eq may answer true only for the same variant with every part of it equal, and false only with a part that differs (or a NaN, or another variant). hash may only '
        'feed functions of parts that eq compares and that cannot tell equal parts apart (no bits of a zero, no addresses, no iteration order of a hash table). cmp may only answer Equal with every part equal, '
        'otherwise the answer of the first differing part, taken in the order (self, other); between variants it must be one strict total order; decisions on one operand only (NaN) must be mirrored.')
ASSUMPTIONS = ['Eq, Ord and Hash of the standard types, HashMap, BTreeMap, Gc and GcCell compare and hash contents, as documented by their crates',
               'the parameters, frame and position of a function literal are fixed by its body (all come from the same node of the program)',
               'NaN is documented to be different from everything and lower than everything, itself included: no claim on the order of two NaN',
               'values that contain themselves are not considered (comparing them does not end)']

TYPES = ['runtime::source::SourcePos', 'runtime::value::function::HushFun', 'runtime::value::function::RustFun', 'runtime::value::function::Function', 'runtime::value::float::Float',
         'runtime::value::string::Str', 'runtime::value::array::Array', 'runtime::value::error::Error', 'runtime::value::Value', 'runtime::value::dict::Dict']
TRAITS = {'eq': 'std::cmp::PartialEq', 'ne': 'std::cmp::PartialEq', 'cmp': 'std::cmp::Ord', 'partial_cmp': 'std::cmp::PartialOrd', 'hash': 'std::hash::Hash'}
DECLS = {'std::cmp::PartialEq::eq': 'eq', 'std::cmp::PartialEq::ne': 'ne', 'std::cmp::Ord::cmp': 'cmp', 'std::cmp::PartialOrd::partial_cmp': 'partial_cmp'}
# parts fixed by others: type -> {field: the field which fixes it}
FIXED = {'HushFun': {'params': 'body', 'frame_info': 'body', 'pos': 'body'}}
COMMUTATIVE = ('wrapping_add', 'bitxor', 'BitXor', 'wrapping_mul', 'bitor', 'bitand', 'BitOr', 'BitAnd', 'max', 'min')
BITS = ('to_bits', 'total_cmp', 'is_sign_positive', 'is_sign_negative', 'signum', 'copysign', 'to_ne_bytes', 'to_be_bytes', 'to_le_bytes', 'recip', 'transmute')
ADDR = ('as_ptr', 'ptr_eq', 'addr', 'expose_provenance', 'addr_of', 'into_raw', 'as_mut_ptr', 'capacity', 'strong_count', 'weak_count', 'ref_count')
UNORDERED = ('HashMap', 'HashSet', 'hash_map', 'hash_set')
ORDERING = ('sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key')
LESS, EQUAL, GREATER = -1, 0, 1
HASHORDER = 'the iteration order of a hash table, which differs between equal tables'

NAN = ('one',)

def canonical(s):
    """shape with the operands of commutative operations sorted"""
    if not isinstance(s, tuple): return s
    op = None
    if s and s[0] == 'call' and isinstance(s[1], str) and s[1].split('::')[-1] in COMMUTATIVE and isinstance(s[2], tuple): op = s[1].split('::')[-1]; args = s[2]
    elif s and s[0] in COMMUTATIVE: op = s[0]; args = s[1:3]
    if op:
        out = []
        for a in args:
            a = canonical(a)
            if isinstance(a, tuple) and a and a[0] == 'comm' and a[1] == op: out += list(a[2])
            else: out.append(a)
        return ('comm', op, tuple(sorted(out, key=repr)))
    return tuple(canonical(x) for x in s)

def swap(s, a, b):
    if s == a: return b
    if s == b: return a
    return tuple(swap(x, a, b) for x in s) if isinstance(s, tuple) else s

def symmetric(C, shape, lits):
    """the shape is made of (at most) two entries of a hash table, in a way that does not depend on which comes first"""
    heads = set()
    def go(s):
        if not isinstance(s, tuple): return
        if s and s[0] == 'next' and C.unordered(s[1]):
            b = s[1]
            while b[0] in ('after', 'next'): b = b[1]
            heads.add(b); return
        for y in s: go(y)
    go(shape)
    if len(heads) != 1: return False
    h = heads.pop(); a = ('next', h); b = ('next', ('after', a)); c = ('next', ('after', b))
    def has(s, x): return s == x or isinstance(s, tuple) and any(has(y, x) for y in s)
    if has(shape, c): return True     # longer tables follow the same loop
    if not has(shape, b): return True
    def put(s):
        if s == b: return 'ENTRY2'
        if s == a: return 'ENTRY1'
        return tuple(put(x) for x in s) if isinstance(s, tuple) else s
    t = put(shape)
    return canonical(t) == canonical(swap(t, 'ENTRY1', 'ENTRY2'))

class Case:
    """one path of one of the functions"""

class V23:
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.gap = False      # some values order as equal without being equal

    # -- views of terms
    def norm(self, I, t, depth=40):
        """(sides, shape): which operands the term is made of, and the term with the operand's name taken out"""
        k = I.T.t[t]
        if k == ('A',): return frozenset('a'), 'X'
        if k == ('B',): return frozenset('b'), 'X'
        if depth == 0: return frozenset('?'), '?'
        if k[0] in ('&', '*', 'cell', 'guard', 'cowref', 'slice', 'owned', 'boxed', 'clone'):
            return self.norm(I, k[1], depth - 1)
        if k[0] == 'fresh': return frozenset('?'), ('fresh', t)
        parts = k[1:]
        if k[0] == 'call': parts = k[1:3]
        sides = frozenset(); out = []
        for x in parts:
            s, o = self.nx(I, x, depth - 1)
            sides |= s; out.append(o)
        return sides, (k[0],) + tuple(out)

    def nx(self, I, x, depth):
        if isinstance(x, int): return self.norm(I, x, depth)
        if isinstance(x, tuple) and x and x[0] == 'n': return frozenset(), x
        if isinstance(x, tuple):
            sides = frozenset(); out = []
            for y in x:
                s, o = self.nx(I, y, depth); sides |= s; out.append(o)
            return sides, tuple(out)
        return frozenset(), x

    def parts(self, shape):
        """fields of the operand a shape is made of: set of (variant or None, field index)"""
        out = set()
        def go(s):
            if s == 'X': out.add('*'); return
            if not isinstance(s, tuple): return
            if s and s[0] == 'f' and len(s) == 3:
                b = s[1]; i = s[2][1]
                if b == 'X': out.add((0, i)); return
                if isinstance(b, tuple) and b[0] == 'd' and b[1] == 'X': out.add((b[2][1], i)); return
            if s and s[0] == 'disc' and s[1] == 'X': return
            for y in s: go(y)
        go(shape)
        return out

    def whole(self, shape):
        """the part itself, not something computed from it that says less"""
        while True:
            if isinstance(shape, tuple) and shape and shape[0] == 'f' and len(shape) == 3:
                b = shape[1]
                if b == 'X' or (isinstance(b, tuple) and b[0] == 'd' and b[1] == 'X'): return True
                shape = b; continue     # newtype field
            if isinstance(shape, tuple) and shape and shape[0] == 'mut' and isinstance(shape[1], tuple) and shape[1][0] == 'call' and str(shape[1][1]).split('::')[-1] in ORDERING:
                shape = shape[1][2][0]; continue
            if isinstance(shape, tuple) and shape and shape[0] == 'as': shape = shape[1]; continue
            if isinstance(shape, tuple) and shape and shape[0] == 'call' and isinstance(shape[1], str):
                m = shape[1].split('::')[-1]
                if m in ('id', 'to_bits', 'deref', 'as_ref', 'borrow', 'as_bytes', 'as_slice', 'iter', 'from_iter', 'into_iter', 'collect', 'to_vec', 'get', 'bytes', 'as_str'):
                    a = shape[2]
                    if isinstance(a, tuple) and len(a) >= 1: shape = a[0]; continue
            return False

    def wholes(self, shape):
        """all parts that are equal when the shape is"""
        if isinstance(shape, tuple) and shape and shape[0] == 'agg':
            out = set()
            for y in shape[3]: out |= self.wholes(y)
            return out
        return self.parts(shape) if self.whole(shape) else set()

    def tells(self, shape, known=lambda s: False, sorted_=False, apart=False):
        """what a function of equal parts may see that differs between them"""
        if not isinstance(shape, tuple): return None
        if shape and shape[0] == 'call' and isinstance(shape[1], str):
            n = shape[1]; m = n.split('::')[-1]
            if m in BITS and not known(shape[2][0] if shape[2] else None): return 'the bits of a float, which differ between 0.0 and -0.0'
            if m in ADDR: return 'an address' if 'ptr' in m or 'addr' in m else 'its ' + m
            if 'RandomState' in n: return 'random numbers'
            if 'BTreeMap' in n or 'BTreeSet' in n or m in ORDERING or sorted_ and m in ('collect', 'from_iter'):
                if self.gap and not apart and self.mentions(shape, UNORDERED): return 'which of several keys that order as equal comes first in a hash table'
                return None
            if m in ('len', 'is_empty', 'contains_key', 'count'): return None
            if m in ('fold', 'sum', 'product', 'reduce') and self.mentions(shape, UNORDERED):
                return self.folded(m, shape[2])
            if self.unordered(shape) and not sorted_: return HASHORDER
        if shape and shape[0] == 'as' and any(isinstance(x, str) and x.startswith(('*', '&')) for x in shape[2:]) and not (self.ti is not None and identity(self, self.ti, shape)): return 'an address'
        if shape and shape[0] == 'next' and self.unordered(shape[1]) and not sorted_: return HASHORDER
        for y in shape:
            w = self.tells(y, known, sorted_, apart)
            if w: return w
        return None

    def unordered(self, shape):
        return isinstance(shape, tuple) and len(shape) > 1 and (shape[0] == 'call' and isinstance(shape[1], str) and any(u in shape[1] for u in UNORDERED) and shape[1].split('::')[-1] in ('iter', 'keys', 'values', 'into_iter', 'next', 'drain') or
                shape[0] in ('after', 'next') and self.unordered(shape[1]))

    def mentions(self, shape, names):
        if isinstance(shape, str): return any(u in shape for u in names)
        return isinstance(shape, tuple) and any(self.mentions(y, names) for y in shape)

    def folded(self, m, args):
        """a fold over a hash table: the result must not depend on the order"""
        src = args[0]
        while isinstance(src, tuple) and src[0] == 'call' and isinstance(src[1], str) and src[1].split('::')[-1] in ('map', 'into_iter', 'iter', 'cloned', 'copied'):
            if src[1].split('::')[-1] == 'map':
                r = self.closure(src[2][1], 1)
                if r is not None: return r
            src = src[2][0] if src[2] else None
        if m in ('sum', 'product'): return None
        f = args[-1]
        if isinstance(f, tuple) and f[0] == 'fn': return None if f[1].split('::')[-1] in COMMUTATIVE else HASHORDER
        return self.closure(f, 2)

    def closure(self, f, n):
        """a closure over the entries of a hash table: of one entry (a function of it), of two (a commutative combination)"""
        if not (isinstance(f, tuple) and f[0] == 'agg'): return HASHORDER if n == 2 else None
        fs = [g for g in self.P.fns if g['n'] == f[1] and g['args'] == n + 1]
        if len(fs) != 1: return HASHORDER
        g = fs[0]
        I = Interp(self.P, hooks=[self.hook]); self.objs = set()
        res = I.run(g, [('s', I.mk('env'), g['locals'][1])] + [('s', I.mk('E%d' % i), g['locals'][2 + i]) for i in range(n)])
        for st in res:
            if st.end != 'return': return HASHORDER
            if n == 1:
                w = self.tells(self.norm(I, I.term(st, st.ret, 14))[1])
                if w: return w
                if any(e[0] == 'hash' for e in st.events()): return HASHORDER
                continue
            s = canonical(self.norm(I, I.term(st, st.ret, 14))[1])
            if not (isinstance(s, tuple) and s and s[0] == 'comm' and ('E0',) in s[2]): return HASHORDER
        return None

    # -- exploration
    def hook(self, I, st, c):
        d = c.info.get('decl', '')
        m = DECLS.get(d)
        if m and len(c.args) == 2:
            ta, tb = (I.term(st, x, 14) for x in c.args)
            ka, kb = (self.const(I, t) for t in (ta, tb))
            if ka is not None and kb is not None:
                r = (ka > kb) - (ka < kb)
                if m in ('eq', 'ne'): return [(st, I.boolv((r == 0) == (m == 'eq')))]
                o = ('a', self.oti, r + 1, ())
                return [(st, o if m == 'cmp' else ('a', c.dti, 1, (o,)))]
            (sa, na), (sb, nb) = self.norm(I, ta), self.norm(I, tb)
            if all(self.operand(I, st, x) for x in c.args): return None          # delegation to another of the operand's own relations
            if sa | sb and '?' not in sa | sb and 'ord' not in (na if isinstance(na, tuple) else ()) and len(sa) <= 1 and len(sb) <= 1 and sa and sb:
                st.event(('atom', m, ta, tb))
                if m in ('eq', 'ne'):
                    t = I.norm(st, ('s', I.mk('rel', ta, tb), I.bool_ti))
                    return [(st, t if m == 'eq' else I.neg(t))]
                o = ('s', I.mk('ord', ta, tb), self.oti)
                if m == 'cmp': return [(st, o)]
                f64 = I.types[c.ats[0]].get('to') if c.ats[0] is not None else None
                if f64 is not None and I.types[f64]['s'] == 'f64': return [(st, ('s', I.mk('pord', ta, tb), c.dti))]
                return [(st, ('a', c.dti, 1, (o,)))]
            return None
        if d == 'std::hash::Hash::hash' or d == 'std::hash::Hash::hash_slice':
            t = I.term(st, c.args[0], 14)
            if self.operand(I, st, c.args[0]): return None
            return self.feed(I, st, t, c.args[1])
        if d.startswith('std::hash::Hasher::write'):
            return self.feed(I, st, I.term(st, c.args[1], 14), c.args[0])
        if d == 'std::hash::Hasher::finish' and c.args[0][0] == 'r':
            return [(st, ('s', I.mk('finish', I.term(st, I.read(st, c.args[0][1], c.args[0][2]), 14)), c.dti))]
        if c.m == 'ptr_eq' and len(c.args) == 2:
            ta, tb = (I.term(st, x, 14) for x in c.args)
            return [(st, I.norm(st, ('s', I.mk('eq', ta, tb), I.bool_ti)))]
        return None

    def feed(self, I, st, t, h):
        """something is fed to a hasher: the one given, or one of the function's own"""
        v = h
        for _ in range(3):
            if v[0] != 'r': break
            w = I.read(st, v[1], v[2])
            if w[0] == 'r': v = w; continue
            if w[0] == 's' and I.T.t[w[1]] == ('state',): break
            if w[0] in ('s', 'a'):
                ti = w[2] if w[0] == 's' else w[1]
                I.write(st, v[1], v[2], ('s', I.mk('fed', I.term(st, w, 14), t), ti))
                return [(st, I.unit())]
            break
        st.event(('hash', t))
        return [(st, I.unit())]

    def operand(self, I, st, v, depth=3):
        if v[0] != 'r': return False
        if v[1] in self.objs and not v[2]: return True
        return depth > 0 and self.operand(I, st, I.read(st, v[1], v[2]), depth - 1)

    def const(self, I, t):
        k = I.T.t[t]
        while k[0] == '&': k = I.T.t[k[1]]
        return k[1][1] if k[0] == 'k' else None

    def explore(self, f, ti, i, j):
        P = self.P
        I = Interp(P, hooks=[self.hook])
        self.oti = need(P.ty_by_s.get('std::cmp::Ordering'), 'Ordering')
        self.objs = set(); self.ti = ti
        def setup(st):
            fr = st.frames[0]
            for n, (nm, var) in enumerate((('A', i), ('B', j))):
                if n == 1 and j is None: continue
                obj = I.alloc(st, I.expand(st, ('s', I.mk(nm), ti), var))
                self.objs.add(obj)
                st.mem[(fr.uid, n + 1)] = ('r', obj, ())
        args = [('s', I.mk('pa'), f['locals'][1]), ('s', I.mk('state'), f['locals'][2])]
        res = I.run(f, args, setup)
        self.R.count('paths', len(res))
        return I, res

    # -- literals of a path
    def literals(self, I, st, extra=()):
        out = []
        for t, v in list(st.facts.items()) + list(extra):
            self.literal(I, t, v, out)
        for t, vs in st.nots.items():
            k = I.T.t[t]
            if k[0] == 'disc' and I.T.t[k[1]][0] == 'ord':
                left = {-1, 0, 1} - {x if x < 128 else x - 256 for x in vs}
                if len(left) == 1: self.literal(I, t, left.pop(), out)
                elif 0 not in left: out.append(('differ', k[1], None))
        # what is known of NaN
        none = any(l[0] == 'none' for l in out); some = any(l[0] == 'some' for l in out)
        for a, b in (('a', 'b'), ('b', 'a')):
            if none and num_of(out, a): out.append(NAN + (b, num_of(out, a), 1))
            if some and not num_of(out, a): out.append(NAN + (a, num_of(out, b) or ('call', 'is_nan', ()), 0))
        # <, <=, >, >= on a part
        num = num_of(out, 'a') and num_of(out, 'b')
        sets = {}
        for l in out:
            if l[0] == 'rng' and (l[3] or num or not l[4]): sets[l[1]] = sets.get(l[1], {-1, 0, 1}) & (l[2] if l[3] else {-1, 0, 1} - l[2])
        for l in out:
            if l[0] in ('same', 'differ') and l[1] in sets: sets[l[1]] &= {0} if l[0] == 'same' else {-1, 1}
        for s, x in sets.items():
            if len(x) == 1: out.append(('ord', s, x.pop()))
            elif 0 not in x: out.append(('differ', s, 'eq'))
        return out

    def literal(self, I, t, v, out):
        k = I.T.t[t]
        if k[0] == 'Not': self.literal(I, k[1], 1 - v, out)
        elif k[0] in ('rel', 'Eq', 'eq', 'Ne', 'ne'):
            if k[0] in ('Ne', 'ne'): v = 1 - v
            (sa, na), (sb, nb) = self.norm(I, k[1]), self.norm(I, k[2])
            # a comparison of an ordering with a constant
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                kx, ky = I.T.t[x], I.T.t[y]
                if kx[0] == 'disc' and I.T.t[kx[1]][0] == 'ord' and ky[0] == 'k':
                    c = ky[1][1]; c = c if c < 128 else c - 256
                    if v: self.literal(I, x, c, out)
                    elif c == 0: out.append(('differ', kx[1], None))
                    return
            if sa and sb and sa != sb and len(sa) == len(sb) == 1 and '?' not in sa | sb:
                if na != nb: out.append(('mixed', (na, nb), v))
                else: out.append(('same' if v else 'differ', na, 'ptr' if k[0] in ('eq', 'ne') else 'eq'))
            elif len(sa | sb) == 1: out.append(('one', next(iter(sa | sb)), (k[0], na, nb), v))
            elif not sa | sb: pass
            else: out.append(('unknown', t, v))
        elif k[0] == 'disc' and I.T.t[k[1]][0] == 'ord':
            o = I.T.t[k[1]]; c = v if v < 128 else v - 256
            r = self.ordpair(I, o)
            if r is None: out.append(('mixed', tuple(self.norm(I, x)[1] for x in o[1:3]), v))
            else: out.append(('ord', r[0], c * r[1]))
        elif k[0] == 'disc' and I.T.t[k[1]][0] == 'pord':
            out.append(('none' if v == 0 else 'some', k[1]))
        elif k[0] in ('Lt', 'Le', 'Gt', 'Ge') and self.ordpair(I, k) is not None:
            n, sg = self.ordpair(I, k)
            rel = {'Lt': {-1}, 'Le': {-1, 0}, 'Gt': {1}, 'Ge': {0, 1}}[k[0]]
            isf = len(k) > 3 and isinstance(k[3], tuple) and self.P.types[k[3][1]]['s'] == 'f64'
            out.append(('rng', n, frozenset(x * sg for x in rel), v, isf))
        else:
            s, n = self.norm(I, t)
            if len(s) == 1 and '?' not in s: out.append(('one', next(iter(s)), n, v))
            elif s: out.append(('unknown', t, v))

    def ordpair(self, I, o):
        (sa, na), (sb, nb) = self.norm(I, o[1]), self.norm(I, o[2])
        if na != nb or len(sa) != 1 or len(sb) != 1 or sa == sb: return None
        return na, (1 if sa == frozenset('a') else -1)

def nan_of(lits, side):
    for l in lits:
        if l[0] == 'one' and l[1] == side and isinstance(l[2], tuple) and l[2][0] == 'call' and isinstance(l[2][1], str) and l[2][1].endswith('is_nan') and l[3] == 1: return True
        if l[0] == 'one' and l[1] == side and isinstance(l[2], tuple) and len(l[2]) == 3 and l[2][0] in ('Eq', 'eq', 'rel') and l[2][1] == l[2][2] and l[3] == 0: return True   # x != x
    return False

def num_of(lits, side):
    for l in lits:
        if l[0] == 'one' and l[1] == side and isinstance(l[2], tuple) and l[2][0] == 'call' and isinstance(l[2][1], str) and l[2][1].endswith('is_nan') and l[3] == 0: return l[2]
    return None

def check(P, R, tier):
    C = V23(P, R)
    for tn in TYPES:
        ti = need(ty(P, tn), tn)
        short = tn.split('::')[-1]
        T = P.types[ti]
        fns = {}
        for f in P.fns:
            if f.get('local') and f.get('m') in TRAITS and f['args'] == 2 and f.get('trait') == TRAITS[f['m']] and f['n'].startswith('<%s as ' % tn): fns.setdefault(f['m'], f)
        for m in ('eq', 'hash', 'cmp', 'partial_cmp'):
            if m not in fns: R.bad('missing:%s:%s' % (short, m), 'the %s of %s is not found' % (m, tn))
        fixed = {}
        for v, var in enumerate(T['v']):
            names = [x[0] for x in var['f']]
            for n, by in FIXED.get(short, {}).items():
                if n in names and by in names: fixed[(v, names.index(n))] = (v, names.index(by))
        nv = len(T['v'])
        req = {v: {(v, x) for x in range(len(T['v'][v]['f']))} - set(fixed) for v in range(nv)}
        R.count('types')
        if 'eq' in fns: equality(C, R, fns['eq'], ti, short, req, fixed, False)
        if 'ne' in fns: equality(C, R, fns['ne'], ti, short, req, fixed, True)
        if 'hash' in fns: hashing(C, R, fns['hash'], ti, short, req, fixed)
        for m in ('cmp', 'partial_cmp'):
            if m in fns: order(C, R, fns[m], ti, short, req, fixed, m)
    R.floor('types', 10); R.floor('variant_pairs', 200); R.floor('paths', 300)

def pname(C, ti, p):
    if p == '*': return 'the value'
    v, i = p
    return '%s.%s' % (C.P.types[ti]['v'][v]['n'], C.P.types[ti]['v'][v]['f'][i][0])

def where(f): return '%s (%s)' % (f['n'], f['file'])

def truth(I, st):
    """(value, literals added) for each outcome of a boolean result"""
    v = st.ret
    if v[0] == 'k': return [(v[1], ())]
    t = v[1]
    if t in st.facts: return [(st.facts[t], ())]
    return [(1, ((t, 1),)), (0, ((t, 0),))]

def equality(C, R, f, ti, short, req, fixed, negated):
    T = C.P.types[ti]; nv = len(T['v'])
    for i in range(nv):
        for j in range(nv):
            R.count('variant_pairs')
            I, res = C.explore(f, ti, i, j)
            key = '%s:eq:%s:%s' % (short, T['v'][i]['n'], T['v'][j]['n'])
            ends = 0
            for st in res:
                if st.end == 'unreachable': continue
                if st.end == 'cut': continue
                if st.end != 'return':
                    R.bad(key, '%s does not answer for %s and %s; %s' % (where(f), T['v'][i]['n'], T['v'][j]['n'], fmt_path(I, st))); continue
                ends += 1
                for val, extra in truth(I, st):
                    if negated: val = 1 - val
                    lits = C.literals(I, st, extra)
                    differ = {s for l in lits if l[0] == 'differ' for s in [l[1]]}
                    mixed = [l for l in lits if l[0] == 'mixed']
                    if mixed:
                        R.bad(key, '%s compares different parts of the two values with each other: %s' % (where(f), mixed[0][1])); continue
                    if val == 1:
                        if i != j: R.bad(key, '%s: a %s may equal a %s; %s' % (where(f), T['v'][i]['n'], T['v'][j]['n'], fmt_path(I, st))); continue
                        got = set()
                        for l in lits:
                            if l[0] == 'same' or (l[0] == 'ord' and l[2] == 0): got |= C.wholes(l[1])
                        miss = req[i] - got
                        if miss: R.bad(key, '%s answers that two values are equal although %s was not found to be equal; %s' % (where(f), ', '.join(pname(C, ti, p) for p in sorted(miss)), fmt_path(I, st)))
                    else:
                        if i != j: continue
                        why = nan_of(lits, 'a') or nan_of(lits, 'b')
                        for l in lits:
                            if l[0] == 'differ' and not isinstance(l[1], int):
                                tell = C.tells(l[1])
                                if tell: R.bad(key, '%s tells values apart by %s' % (where(f), tell)); why = True; continue
                                if l[2] == 'ptr' and not identity(C, ti, l[1]): continue
                                why = True
                            elif l[0] == 'differ':
                                r = C.ordpair(I, I.T.t[l[1]])
                                why = why or r is not None
                            elif l[0] == 'ord' and l[2] != 0: why = True
                        if not why: R.bad(key, '%s answers that two values differ although no part of them was found to differ; %s' % (where(f), fmt_path(I, st)))
                if short == 'HushFun':
                    # a recursive function is part of its own context
                    for e in st.events():
                        if e[0] != 'atom': continue
                        s = C.norm(I, e[2])[1]
                        for p in C.parts(s):
                            if p == '*' or T['v'][p[0]]['f'][p[1]][0] != 'context': continue
                            R.count('context_comparisons')
                            if not any(l[0] == 'differ' and l[2] == 'ptr' and p in C.parts(l[1]) for l in C.literals(I, st)):
                                R.bad('HushFun:eq:self', '%s compares the captured values of a function with themselves: a recursive function, which is one of them, never gets an answer' % where(f))
            if not ends: R.bad(key, '%s has no answer for %s and %s' % (where(f), T['v'][i]['n'], T['v'][j]['n']))

def identity(C, ti, shape):
    """the part is a reference into the program, or a native function with its state: identity is all there is to compare"""
    T = C.P.types[ti]
    return any(p != '*' and (C.P.types[T['v'][p[0]]['f'][p[1]][1]]['k'] == 'ref' or 'dyn runtime::value::function::NativeFun' in C.P.types[T['v'][p[0]]['f'][p[1]][1]]['s']) for p in C.parts(shape))

def hashing(C, R, f, ti, short, req, fixed):
    T = C.P.types[ti]
    for i in range(len(T['v'])):
        I, res = C.explore(f, ti, i, None)
        key = '%s:hash:%s' % (short, T['v'][i]['n'])
        allowed = req[i] | set(fixed)
        for st in res:
            if st.end in ('unreachable', 'cut'): continue
            if st.end != 'return':
                R.bad(key, '%s does not answer for %s; %s' % (where(f), T['v'][i]['n'], fmt_path(I, st))); continue
            lits = C.literals(I, st)
            nonzero = set()
            for l in lits:
                if l[0] == 'one' and isinstance(l[2], tuple) and len(l[2]) >= 3 and l[2][0] in ('Eq', 'rel') and l[3] == 0:
                    for x, y in ((l[2][1], l[2][2]), (l[2][2], l[2][1])):
                        if isinstance(y, tuple) and y[0] == 'float' and zero(y): nonzero.add(x)
            def known(s):
                if s in nonzero: return True
                if isinstance(s, tuple) and s and s[0] == 'float': return True
                if isinstance(s, tuple) and s and s[0] == 'Add' and any(isinstance(y, tuple) and y[0] == 'float' and y[1] in (0, '0', ('n', 0)) for y in s[1:]): return True
                return False
            sorted_ = any(e[0] == 'call' and e[1].split('::')[-1] in ORDERING for e in st.events())
            for e in st.events():
                if e[0] != 'hash': continue
                R.count('hash_inputs')
                s, n = C.norm(I, e[1])
                tell = C.tells(n, known, sorted_)
                if tell == HASHORDER and symmetric(C, n, lits): R.count('symmetric_combinations'); tell = None
                if tell: R.bad(key, '%s feeds %s to the hash; %s' % (where(f), tell, fmt_path(I, st))); continue
                extra = C.parts(n) - allowed
                if extra: R.bad(key, '%s hashes %s, which equality does not compare' % (where(f), ', '.join(pname(C, ti, p) for p in extra)))
            # what is fed may depend on the value only through functions of its parts
            for l in lits:
                if l[0] == 'one':
                    if isinstance(l[2], tuple) and l[2][0] == 'disc' and isinstance(l[2][1], tuple) and l[2][1][0] == 'next': continue    # how many entries there are
                    tell = C.tells(l[2] if isinstance(l[2], tuple) else (l[2],), known, sorted_)
                    if tell: R.bad(key, '%s decides what to hash by %s' % (where(f), tell))
                    ex = C.parts(l[2] if isinstance(l[2], tuple) else (l[2],)) - allowed
                    if ex: R.bad(key, '%s decides what to hash by %s, which equality does not compare' % (where(f), ', '.join(pname(C, ti, p) for p in ex)))

def zero(y): return y[1] in (0, '0', ('n', 0)) or str(y[1]) in ('0', '0.0', "('n', 0)", str(1 << 63))

def order(C, R, f, ti, short, req, fixed, m):
    T = C.P.types[ti]; nv = len(T['v'])
    table = {}
    for i in range(nv):
        for j in range(nv):
            R.count('variant_pairs')
            I, res = C.explore(f, ti, i, j)
            key = '%s:%s:%s:%s' % (short, m, T['v'][i]['n'], T['v'][j]['n'])
            outs = []
            for st in res:
                if st.end in ('unreachable', 'cut'): continue
                lits = C.literals(I, st)
                if st.end != 'return':
                    if any(l[0] == 'none' for l in lits) and num_of(lits, 'a') and num_of(lits, 'b'): continue   # two numbers always compare
                    R.bad(key, '%s does not answer for %s and %s; %s' % (where(f), T['v'][i]['n'], T['v'][j]['n'], fmt_path(I, st))); continue
                v = st.ret
                if m == 'partial_cmp':
                    if v[0] == 's' and I.T.t[v[1]][0] == 'pord': v = ('s', v[1], None)
                    elif v[0] == 's' and not vnames(I, st, v, v[2]) == {'Some'}:
                        R.bad(key, '%s may leave two values unordered; %s' % (where(f), fmt_path(I, st))); continue
                    else:
                        if v[0] == 's': v = I.expand(st, v, 1)
                        if vname(I, v) != 'Some':
                            R.bad(key, '%s may leave two values unordered; %s' % (where(f), fmt_path(I, st))); continue
                        v = v[3][0]
                outs.append((st, lits, outcome(C, I, st, v)))
            if not outs: R.bad(key, '%s has no answer for %s and %s' % (where(f), T['v'][i]['n'], T['v'][j]['n'])); continue
            if i != j:
                rs = {o for _, _, o in outs}
                if len(rs) != 1 or next(iter(rs)) not in (LESS, GREATER):
                    R.bad(key, '%s: the order of a %s and a %s is not fixed: %s' % (where(f), T['v'][i]['n'], T['v'][j]['n'], rs))
                else: table[(i, j)] = next(iter(rs))
                continue
            same_variant(C, R, f, ti, short, I, i, key, req, fixed, outs)
    for (i, j), r in table.items():
        if table.get((j, i)) != -r: R.bad('%s:%s:mirror' % (short, m), '%s: %s and %s order the same way both ways round' % (where(f), T['v'][i]['n'], T['v'][j]['n']))
        for k in range(nv):
            if (j, k) in table and table[(j, k)] == r and k != i and table.get((i, k)) != r:
                R.bad('%s:%s:transitive' % (short, m), '%s: the order of %s, %s and %s is circular' % (where(f), T['v'][i]['n'], T['v'][j]['n'], T['v'][k]['n']))

def outcome(C, I, st, v):
    """-1, 0, 1, ('by', shape, sign) or ('?', ...)"""
    if v[0] == 'a': return v[2] - 1
    if v[0] != 's': return ('?', str(v))
    t = v[1]; rev = 1
    while True:
        k = I.T.t[t]
        if k[0] == 'call' and isinstance(k[1], str) and k[1].endswith('::reverse'): rev = -rev; t = k[2][0]; continue
        if k[0] == 'f' and I.T.t[k[1]][0] == 'd' and I.T.t[I.T.t[k[1]][1]][0] == 'pord': t = I.T.t[k[1]][1]; continue
        break
    if k[0] in ('ord', 'pord'):
        o = C.ordpair(I, k)
        if o is None: return ('?', I.show(t, 8))
        d = st.facts.get(I.mk('disc', t, ('n', v[2]))) if v[2] is not None else None
        if d is not None: return (d if d < 128 else d - 256) * o[1] * rev
        return ('by', o[0], o[1] * rev)
    return ('?', I.show(t, 8))

def same_variant(C, R, f, ti, short, I, i, key, req, fixed, outs):
    vn = C.P.types[ti]['v'][i]['n']
    allowed = req[i] | set(fixed)
    for st, lits, o in outs:
        mixed = [l for l in lits if l[0] == 'mixed']
        if mixed: R.bad(key, '%s compares different parts of the two values with each other: %s' % (where(f), mixed[0][1])); continue
        if isinstance(o, tuple) and o[0] == '?':
            R.bad(key, '%s orders two values by something else than a part of both: %s' % (where(f), o[1])); continue
        nan = nan_of(lits, 'a') or nan_of(lits, 'b')
        shapes = [l[1] for l in lits if l[0] in ('ord', 'same', 'differ') and not isinstance(l[1], int)] + ([o[1]] if isinstance(o, tuple) else [])
        for s in shapes:
            ex = C.parts(s) - allowed
            if ex: R.bad(key, '%s orders by %s, which equality does not compare' % (where(f), ', '.join(pname(C, ti, p) for p in ex)))
            apart = any(l[0] == 'differ' and not isinstance(l[1], int) and C.parts(l[1]) >= C.parts(s) and C.whole(l[1]) and l[2] == 'eq' for l in lits)
            sorted_ = any(e[0] == 'call' and e[1].split('::')[-1] in ORDERING for e in st.events())
            tell = C.tells(s, sorted_=sorted_, apart=apart)
            if tell: R.bad(key, '%s orders values by %s' % (where(f), tell))
        if isinstance(o, tuple) and o[2] != 1: R.bad(key, '%s orders %s the wrong way round' % (where(f), ', '.join(pname(C, ti, p) for p in C.parts(o[1]))))
        got = set()
        for l in lits:
            if (l[0] == 'ord' and l[2] == 0) or l[0] == 'same': got |= C.wholes(l[1])
        if isinstance(o, tuple): got |= C.wholes(o[1])
        if o == EQUAL or isinstance(o, tuple):
            miss = req[i] - got
            named = isinstance(o, tuple) and isinstance(o[1], tuple) and o[1][0] == 'call' and str(o[1][1]).endswith('::name')
            if miss and (short == 'HushFun' and got & set(fixed) or short == 'RustFun' and named): miss = set(); C.gap = True     # functions of one literal, or of one name, order as equal
            apart = any(l[0] == 'differ' and isinstance(l[1], int) and isinstance(o, tuple) and (C.ordpair(I, I.T.t[l[1]]) or (None,))[0] == o[1] for l in lits)
            if miss and not nan and not apart: R.bad(key, '%s may order two values as equal although %s was not compared; %s' % (where(f), ', '.join(pname(C, ti, p) for p in sorted(miss)), fmt_path(I, st)))
        if o in (LESS, GREATER) and not nan:
            if not any(l[0] == 'ord' and l[2] == o for l in lits):
                R.bad(key, '%s answers %s although no part of the values was found to be so; %s' % (where(f), 'Less' if o == LESS else 'Greater', fmt_path(I, st)))
    # decisions on one operand only
    def side(lits, s): return {l[2]: l[3] for l in lits if l[0] == 'one' and l[1] == s}
    for st, lits, o in outs:
        if nan_of(lits, 'a') and num_of(lits, 'b') and o != LESS or nan_of(lits, 'b') and num_of(lits, 'a') and o != GREATER:
            R.bad(key, '%s: NaN must order below every number; %s' % (where(f), fmt_path(I, st)))
        for st2, lits2, o2 in outs:
            a, b, a2, b2 = side(lits, 'a'), side(lits, 'b'), side(lits2, 'a'), side(lits2, 'b')
            if not (a or b): continue
            if any(b2.get(k, v) != v for k, v in a.items()) or any(a2.get(k, v) != v for k, v in b.items()): continue
            if any(nan_of(l, x) for l in (lits,) for x in 'a') and nan_of(lits2, 'a'): continue
            if o in (LESS, GREATER) and o2 in (LESS, GREATER) and o == o2 and not any(l[0] == 'ord' for l in lits + lits2):
                R.bad(key, '%s: two values may both be %s the other; %s' % (where(f), 'lower than' if o == LESS else 'greater than', fmt_path(I, st)))
