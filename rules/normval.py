"""Language-level reading of the terms of a path: what a result is made of, with pointers, boxes, copies and
conversions between string types left out, and what was written to the standard output."""
import re
from natspec import *

SAME = ('into_boxed_str', 'into_boxed_slice', 'into_vec', 'into_os_string', 'from_bytes', 'as_bytes', 'to_vec', 'to_owned', 'into_owned',
        'into_bytes', 'as_os_str', 'as_str', 'as_slice', 'deref', 'borrow', 'as_ref', 'to_os_string', 'from_vec', 'into_string', 'as_path',
        'to_path_buf', 'as_mut_slice', 'into_inner', 'as_os_str_bytes', 'into_pathbuf', 'new_display', 'copied', 'cloned', 'as_bstr', 'into_string_lossy')
FROM = re.compile(r'From<.*>.*::from$')
LITERAL = ('from_utf8', 'from_utf8_unchecked')
WORDS = ('usize', 'i64', 'u64', 'isize')

class Norm:
    def __init__(self, E, I):
        self.E = E; self.I = I; self.P = E.P
        self.kinds = [x['n'] for x in self.P.types[E.value_ti]['v']]
        self.vpath = self.P.types[E.value_ti].get('p', 'runtime::value::Value')
        self.memo = {}

    def val(self, st, v, depth=20): return self.term(self.I.term(st, v, depth))

    def term(self, t):
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self._term(t)
        return r

    def _parts(self, k):
        out = []
        for p in k:
            if isinstance(p, bool): out.append(p)
            elif isinstance(p, int): out.append(self.term(p))
            elif isinstance(p, tuple) and p and p[0] == 'n': out.append(p[1])
            elif isinstance(p, tuple): out.append(tuple(self.term(q) if isinstance(q, int) and not isinstance(q, bool) else q for q in p))
            else: out.append(p)
        return tuple(out)

    def _chain(self, t):
        """(base, i) for the i-th next element of an iterator term"""
        i = 0
        k = self.I.T.t[t]
        while k[0] == 'after':
            t = k[1]; k = self.I.T.t[t]
            if k[0] != 'next': return None
            i += 1; t = k[1]; k = self.I.T.t[t]
        return t, i

    def _term(self, t):
        I = self.I
        k = I.T.t[t]
        h = k[0]
        if h == 'k': return ('k', k[1][1])
        if h == 'bytes': return ('bytes', k[1] if isinstance(k[1], bytes) else bytes(k[1]) if isinstance(k[1], (tuple, list)) else k[1].encode())
        if h == 'v': return ('v', k[1])
        if h in ('&', '*', 'boxed', 'cell'): return self.term(k[1])
        if h == 'iter' and len(k) == 2: return self.term(k[1])
        if h == 'agg':
            fs = tuple(self.term(x) for x in k[3]) if len(k) > 3 else ()
            if k[1] == self.vpath and k[2].isdigit():
                kind = self.kinds[int(k[2])]
                if not fs: return (kind,)
                if fs[0][0] == 'pay' and fs[0][1] == kind: return fs[0][2]
                return (kind,) + fs
            if not k[2].isdigit():
                if k[2] in ('cell', 'box', 'rc') and len(fs) == 1: return fs[0]
                return ('list',) + fs if k[2] in ('vec', 'list', 'array') else ('agg', k[1], k[2]) + fs
            if k[1] == 'fmt::Show' and fs: return ('show', fs[0])
            if len(fs) == 1 and self._newtype(k[1]): return fs[0]
            return ('agg', k[1].split('<')[0], int(k[2])) + self._named(k[1], int(k[2]), fs)
        if h == 'f':
            i = k[2][1]
            b = I.T.t[k[1]]
            if b[0] == 'd':
                x = I.T.t[b[1]]
                if x[0] == 'next' and b[2][1] == 1:
                    c = self._chain(x[1])
                    if c: return ('item', self.term(c[0]), c[1])
                y = self.term(b[1])
                if self._value(y): return ('pay', self.kinds[b[2][1]], y)
                return ('pick', b[2][1], i, y)
            y = self.term(k[1])
            if y[0] == 'pay' and y[1] in ('String', 'Array', 'Dict', 'Float') and i == 0: return y
            return ('f', y, i)
        if h == 'as':
            fr, to = [str(x) for x in k[2:4]] if len(k) >= 4 else ('', '')
            if fr in WORDS and to in WORDS: return self.term(k[1])
            return ('as', self.term(k[1]), fr, to)
        if h == 'mut':
            return ('after', self.term(k[1]), k[2][1] if isinstance(k[2], tuple) else k[2])
        if h == 'call':
            nm = k[1]
            a = k[2] if len(k) > 2 and isinstance(k[2], tuple) else ()
            last = nm.split('::')[-1]
            if a and (last in SAME or FROM.search(nm)):
                return self.term(a[0])
            if last in ('format', 'must_use') and len(a) == 1 and nm.split('::')[0] in ('alloc', 'std', 'core'):
                if last == 'must_use': return self.term(a[0])
                ps = format_parts(self, a[0])
                if len(ps) == 1: return ('bytes', ps[0]) if isinstance(ps[0], bytes) else ps[0]
                return ('text',) + tuple(ps)
            args = tuple(self.term(x) if isinstance(x, int) and not isinstance(x, bool) else x for x in a)
            if last == 'to_string' and len(args) == 1: return args[0] if args[0][0] in ('bytes', 'pay', 'list', 'show') else ('shown', args[0])
            if last == 'fmt_string' and args: return ('show', args[0])
            return ('call', short(nm)) + args
        p = self._parts(k)
        if h in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Add', 'Sub', 'Mul'): p = p[:3]
        return p

    def _named(self, path, vi, fs):
        for t in self.P.types:
            if t.get('p') == path and t.get('v') and vi < len(t['v']) and len(t['v'][vi]['f']) == len(fs):
                ns = [f[0] for f in t['v'][vi]['f']]
                if any(n.isdigit() for n in ns): break
                return tuple(sorted(zip(ns, fs), key=lambda x: x[0]))
        return fs

    def _newtype(self, path):
        for t in self.P.types:
            if t.get('p') == path and t.get('local') and t.get('v'): return len(t['v']) == 1 and len(t['v'][0]['f']) == 1
        return False

    def _value(self, y):
        return y[0] in ('v', 'self') or (y[0] == 'item' and False)

    def exhausted(self, st, base, n):
        """the path saw that the iterator over base has exactly n elements"""
        I = self.I
        for t, v in st.facts.items():
            k = I.T.t[t]
            if k[0] == 'disc' and v == 0:
                x = I.T.t[k[1]]
                if x[0] == 'next':
                    c = self._chain(x[1])
                    if c and c[1] == n and self.term(c[0]) == base: return True
        return False

def short(nm):
    seg = nm.split('::')
    if nm.startswith('<') or len(seg) == 1: return seg[-1]
    return {'core': 'std', 'alloc': 'std'}.get(seg[0], seg[0]) + '::' + seg[-1]

def template(bs):
    """parts of a compiled format string: bytes or the number of an argument (with its options, if any)"""
    out = []; i = 0; arg = 0
    while i < len(bs):
        n = bs[i]; i += 1
        if n == 0: return out
        if n < 0x80: out.append(bytes(bs[i:i + n])); i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            out.append(bytes(bs[i + 2:i + 2 + ln])); i += 2 + ln
        else:
            opts = b''
            if n & 1: opts += bytes(bs[i:i + 4]); i += 4
            if n & 2: opts += bytes(bs[i:i + 2]); i += 2
            if n & 4: opts += bytes(bs[i:i + 2]); i += 2
            if n & 8: arg = bs[i] | bs[i + 1] << 8; i += 2
            out.append((arg, opts)); arg += 1
    return out

def format_parts(N, t):
    """what a format::Arguments term prints: [bytes | ('shown', x) | ('debug', x) | ...]"""
    I = N.I
    k = I.T.t[t]
    while k[0] in ('&', '*'): k = I.T.t[k[1]]
    if k[0] == 'call':
        last = k[1].split('::')[-1]
        if last in ('from_str', 'new_const'):
            r = N.term(k[2][0])
            return [r[1]] if r[0] == 'bytes' else [('?', r)]
        if last == 'new':
            tb = N.term(k[2][0])
            if tb[0] != 'bytes': return [('?', tb)]
            args = _args(I, k[2][1])
            out = []
            for p in template(tb[1]):
                if isinstance(p, bytes): out.append(p); continue
                a, o = p
                if args is None or a >= len(args): return [('?', 'arguments')]
                ak = I.T.t[args[a]]
                how = ak[1].split('::')[-1] if ak[0] == 'call' else '?'
                x = N.term(ak[2][0]) if ak[0] == 'call' else N.term(args[a])
                how = {'new_display': 'shown', 'new_debug': 'debug'}.get(how, how)
                if how == 'shown' and not o and x[0] == 'bytes': out.append(x[1])
                elif how == 'shown' and not o and x[0] in ('show', 'shown'): out.append(x)
                else: out.append((how, x) if not o else (how, x, o))
            return join(out)
    return [('?', N.term(t))]

def _args(I, t):
    k = I.T.t[t]
    while k[0] in ('&', '*'): k = I.T.t[k[1]]
    if k[0] == 'agg' and k[2] in ('array', 'vec', 'list'): return list(k[3])
    return None

def join(parts):
    out = []
    for p in parts:
        if isinstance(p, bytes):
            if not p: continue
            if out and isinstance(out[-1], bytes): out[-1] += p; continue
        out.append(p)
    return out

WRITES = ('write_all', 'write_fmt', 'write', 'write_str', 'write_char')

def output_hook(N_of, fork=True):
    """records what is written, in order, in st.user['out']; each write may fail"""
    def hook(I, st, c):
        d = c.info.get('decl') or c.name
        last = c.name.split('::')[-1]
        if c.local and c.info.get('id') is not None: return None
        if last in ('_print', '_eprint') and 'std::io' in c.name:
            put(st, ('out', last, tuple(format_parts(N_of(I), I.term(st, c.args[0], 14)))))
            return [(st, I.unit())]
        if last in WRITES and ('Write' in c.name or 'Write' in d or 'fmt::Formatter' in c.name) and len(c.args) == 2:
            N = N_of(I)
            v = c.args[1]
            if last == 'write_fmt': parts = format_parts(N, I.term(st, v, 14))
            else:
                x = N.val(st, v)
                parts = [as_bytes(x)]
            put(st, ('out', last, tuple(parts)))
            return fallible(I, st, c, 'write')
        if last == 'flush' and 'Write' in c.name and len(c.args) == 1:
            put(st, ('flush',))
            return fallible(I, st, c, 'flush')
        return None
    def fallible(I, st, c, what):
        s2 = st.copy()
        t = I.types[c.dti]
        okf, erf = t['v'][0]['f'][0][1], t['v'][1]['f'][0][1]
        n = len(st.user.get('out', ()))
        ok = ('a', okf, 0, ()) if I.types[okf].get('f') == [] or I.types[okf]['s'] == '()' else ('s', I.mk('written', ('n', n)), okf)
        if not fork: return [(st, ('a', c.dti, 0, (ok,)))]
        put(s2, ('failed', what))
        return [(st, ('a', c.dti, 0, (ok,))), (s2, ('a', c.dti, 1, (('s', I.mk('ioerror', ('n', n)), erf),)))]
    return hook

def as_bytes(x):
    if x[0] == 'bytes': return x[1]
    if x[0] == 'list' and all(y[0] == 'k' for y in x[1:]): return bytes(y[1] for y in x[1:])
    return x

def put(st, e):
    st.user = dict(st.user); st.user['out'] = st.user.get('out', ()) + (e,)

def written(st):
    """what the path wrote, joined: [bytes | part]"""
    out = []
    for e in st.user.get('out', ()):
        if e[0] == 'out': out += list(e[2])
    return join(out)

def continue_with(I, st, fn, args):
    """all paths of a further call from the end of a path"""
    s = st.copy(); s.end = None; s.ret = None; s.frames = []
    fr = I.new_frame(s, fn, None, None)
    for i, a in enumerate(args): s.mem[(fr.uid, i + 1)] = a
    s.frames.append(fr)
    return [x for x in I.run_states([s]) if x.end != 'infeasible']
