"""The scanner as an automaton: single steps of its driver loop on every byte, followed over an abstract state."""
from lib import *

class Machine:
    """What one call of the scanner's step function does, for a state, a next byte (or the end of the input) and any position.

    The step is the driver (the iterator's next) up to the point where it has to look at another position: a state given to the
    step function while the cursor is where it was is continued, any other ends the macro step."""
    def __init__(self, P):
        self.P = P
        T = P.types
        cand = []
        for f in P.fns:
            if not (f.get('local') and f.get('m') == 'next' and (f.get('trait') or '').endswith('Iterator') and f['args'] == 1): continue
            r = T[f['locals'][1]]
            if r['k'] != 'ref': continue
            s = T[r['to']]
            if s['k'] != 'struct' or not s.get('local'): continue
            cur = [i for i, (n, t) in enumerate(s['v'][0]['f']) if self.is_cursor(t)]
            if len(cur) != 1: continue
            for i, (n, t) in enumerate(s['v'][0]['f']):
                if T[t]['k'] == 'enum' and T[t].get('local'): cand.append((f, r['to'], i, cur[0], t))
        need(len(cand) == 1, 'the scanner: an iterator over a cursor with a state')
        self.next, self.auto, self.f_state, self.f_cursor, self.state = cand[0]
        self.cursor = T[self.auto]['v'][0]['f'][self.f_cursor][1]
        self.fields = T[self.cursor]['v'][0]['f']
        self.i_off = [i for i, (n, t) in enumerate(self.fields) if T[t]['s'] == 'usize'][0]
        self.i_pos = [i for i, (n, t) in enumerate(self.fields) if T[t]['s'].endswith('SourcePos')][0]
        self.i_in = [i for i, (n, t) in enumerate(self.fields) if T[t]['k'] == 'ref'][0]
        self.pos_ti = self.fields[self.i_pos][1]
        self.steps = [f['id'] for f in P.fns if f.get('local') and f['args'] >= 2 and f['locals'][1] == self.state
                      and any(self.cursor_ref(x) for x in f['locals'][2:f['args'] + 1])]
        need(self.steps, 'the step function of the scanner: state by value and the cursor')
        self.words = [f['id'] for f in P.fns if f.get('local') and T[f['locals'][0]]['s'].endswith('token::TokenKind')
                      and any(T[x]['s'] == '&[u8]' for x in f['locals'][1:f['args'] + 1])]
        called = callees(P)
        self.words = [w for w in self.words if not any(w in called.get(o, ()) for o in self.words if o != w)] or self.words
        self.I = Interp(P, hooks=[self.hook], max_visits=40, max_paths=4000)
        I = self.I
        self.u8 = P.ty_by_s['u8']; self.us = P.ty_by_s['usize']
        self.OFF = I.mk('OFF'); self.POS = I.mk('POS'); self.LEN = I.mk('LEN'); self.BYTE = I.mk('BYTE'); self.IN = I.mk('INPUT')
        self.BYTE2 = I.mk('x', self.IN, self.OFF)
        self.runs = 0

    def is_cursor(self, t):
        T = self.P.types
        s = T[t]
        if s['k'] != 'struct' or not s.get('local'): return False
        ts = [T[x]['s'] for n, x in s['v'][0]['f']]
        return '&[u8]' in ts and 'usize' in ts and any(x.endswith('SourcePos') for x in ts)
    def cursor_ref(self, t):
        T = self.P.types
        return T[t]['k'] == 'ref' and self.is_cursor(T[t]['to'])

    # ---- what the input is ------------------------------------------------------------
    def is_input(self, I, st, v):
        try: return I.term(st, v) in (self.IN, I.mk('&', self.IN), I.mk('ref', self.IN))
        except Exception: return False

    def hook(self, I, st, c):
        T = self.P.types
        a = c.args
        if c.info.get('id') in self.steps:
            cv = self.cursor_value(I, st)
            off = I.term(st, cv[3][self.i_off])
            if st.user.get('n', 0) and off != self.OFF:
                st.user = dict(st.user, suspended=a[0])
                st.end = 'suspend'
                return [(st, None)]
            st.user = dict(st.user, n=st.user.get('n', 0) + 1)
            return None
        if c.info.get('id') in self.words:
            w = [x for x, t in zip(a, c.ats) if t is not None and T[t]['s'] == '&[u8]'][0]
            return [(st, ('s', I.mk('word', self.content(I, st, w)), c.dti))]
        n = c.name or ''
        if a and self.is_input(I, st, a[0]) and n.startswith(('core::slice', 'std::slice', '<[T] as', '<[', 'core::array', 'std::ops::Index')):
            if c.m == 'len': return [(st, ('s', self.LEN, self.us))]
            if c.m == 'is_empty': return None
            if c.m in ('get', 'index', 'get_unchecked') and len(a) == 2:
                ix = a[1]
                if ix[0] in ('s', 'k'):
                    if I.term(st, ix) == self.OFF:
                        if c.m == 'get':
                            if st.user['byte'] is None: return [(st, ('a', c.dti, 0, ()))]
                            return [(st, ('a', c.dti, 1, (('r', st.user['bobj'], ()),)))]
                        return [(st, ('r', st.user['bobj'], ()))]
                    return None
                rg = self.range_of(I, st, ix)
                if rg is not None:
                    o = I.alloc(st, ('s', I.mk('slice', rg[0], rg[1]), self.P.ty_by_s.get('[u8]')))
                    r = ('r', o, ())
                    if c.m == 'get': return [(st, ('a', c.dti, 1, (r,)))]
                    return [(st, r)]
        if n.endswith('is_empty') and a:
            k = I.T.t[self.content(I, st, a[0])]
            if k[0] == 'slice': return [(st, I.boolv(self.empty(st, k)))]
        if c.m == 'len' and a:
            t = self.content(I, st, a[0])
            k = I.T.t[t]
            if k[0] == 'slice':
                if self.empty(st, k): return [(st, ('k', 0, self.us))]
                t = I.mk('len', t)
                st.iv.setdefault(t, (1, 1 << 62))
                return [(st, ('s', t, self.us))]
        if c.m in ('first', 'get') and a and c.dti is not None and T[c.dti]['k'] == 'enum' and (c.m == 'first' or len(a) == 2 and a[1][0] == 'k' and a[1][1] == 0):
            k = I.T.t[self.content(I, st, a[0])]
            if k[0] == 'slice' and k[1] == self.OFF and k[2] == self.LEN:
                if st.user['byte'] is None: return [(st, ('a', c.dti, 0, ()))]
                return [(st, ('a', c.dti, 1, (('r', st.user['bobj'], ()),)))]
        if 'from_utf8' in (c.m or '') and a and I.T.t[self.content(I, st, a[0])][0] == 'slice':
            # the bytes of a number, a word: only ASCII characters were let into them
            x = a[0]
            if c.m == 'from_utf8' and c.dti is not None and T[c.dti]['k'] == 'enum': return [(st, ('a', c.dti, 0, (x,)))]
            return [(st, x)]
        if c.m in ('parse', 'from_str') and a and c.dti is not None and T[c.dti]['k'] == 'enum':
            src = self.content(I, st, a[0])
            if I.T.t[src][0] == 'slice':
                ok = T[c.dti]['v'][0]['f'][0][1]; er = T[c.dti]['v'][1]['f'][0][1]
                s2 = st.copy()
                st.user = dict(st.user, parse=True); s2.user = dict(s2.user, parse=False)
                return [(st, ('a', c.dti, 0, (('s', I.mk('parse', T[ok]['s'], src), ok),))), (s2, ('a', c.dti, 1, (('s', I.mk('parse_error'), er),)))]
        if c.m in ('into', 'from', 'to_vec', 'to_owned', 'into_boxed_slice', 'into_vec') and len(a) == 1 and c.dti is not None and T[c.dti]['s'] in ('std::boxed::Box<[u8]>', 'std::vec::Vec<u8>'):
            src = self.content(I, st, a[0])
            if I.T.t[src][0] == 'slice': return [(st, ('a', c.dti, 'vec', (('s', I.mk('bytes_of', src), self.u8),)))]
        if c.m in ('is_ascii_whitespace', 'is_ascii_digit', 'is_ascii_alphabetic', 'is_ascii_alphanumeric', 'is_ascii_graphic', 'is_ascii_punctuation', 'is_ascii_uppercase', 'is_ascii_lowercase',
                   'is_ascii_control', 'is_ascii', 'is_ascii_hexdigit') and a:
            x = self.value(I, st, a[0])
            if x is not None: return [(st, I.boolv(ASCII[c.m](x)))]
        if c.m == 'contains' and len(a) == 2:
            h = self.table(I, st, a[0]); x = self.value(I, st, a[1])
            if h is not None and x is not None: return [(st, I.boolv(x in h))]
        return None

    def table(self, I, st, v):
        for _ in range(4):
            if v[0] == 'b': return v[1]
            if v[0] == 'bytes': return v[1]
            if v[0] == 'r': v = I.read(st, v[1], v[2]); continue
            if v[0] == 'a' and v[2] in ('vec', 'array'):
                xs = [I.norm(st, x) for x in v[3]]
                return [x[1] for x in xs] if all(x[0] == 'k' for x in xs) else None
            if v[0] == 'a' and len(v[3]) == 1: v = v[3][0]; continue
            return None
    def value(self, I, st, v):
        for _ in range(4):
            v = I.norm(st, v)
            if v[0] == 'k': return v[1]
            if v[0] == 'r': v = I.read(st, v[1], v[2]); continue
            return None
    def content(self, I, st, v):
        for _ in range(4):
            if v[0] == 'r': v = I.read(st, v[1], v[2]); continue
            break
        t = I.term(st, v)
        while I.T.t[t][0] in ('&', '*'): t = I.T.t[t][1]
        return t
    def empty(self, st, k):
        """a slice up to the current offset starts before it unless it starts there"""
        return k[1] == k[2] or (k[1] == self.OFF and k[2] == self.LEN and st.user['byte'] is None)
    def range_of(self, I, st, v):
        """(from, to) of a range value, to exclusive; an inclusive end is the term (+1 end)"""
        if v[0] != 'a': return None
        s = self.P.types[v[1]]['s']
        f = [I.term(st, x) for x in v[3]]
        zero = I.mk('k', ('n', 0))
        if s.startswith('std::ops::RangeInclusive'): return f[0], I.mk('succ', f[1])
        if s.startswith('std::ops::RangeToInclusive'): return zero, I.mk('succ', f[0])
        if s.startswith('std::ops::RangeTo<'): return zero, f[0]
        if s.startswith('std::ops::RangeFrom'): return f[0], self.LEN
        if s.startswith('std::ops::Range<'):
            e = I.T.t[f[1]]
            if e[0] == 'Add' and I.T.t[e[2]] == ('k', ('n', 1)): return f[0], I.mk('succ', e[1])
            return f[0], f[1]
        return None

    def cursor_value(self, I, st):
        obj = st.user['auto']
        return I.read(st, obj, (('f', self.f_cursor, self.cursor),))

    # ---- one macro step --------------------------------------------------------------------
    def step(self, state, byte):
        """outcomes of the driver in this state on this byte (None: end of input):
        (kind, post state value, offset term, position value, output value, path)"""
        P, I = self.P, self.I
        self.runs += 1
        def setup(st):
            bobj = I.alloc(st, ('s', self.BYTE, self.u8))
            iobj = I.alloc(st, ('s', self.IN, P.types[self.fields[self.i_in][1]]['to']))
            fs = []
            for i, (n, t) in enumerate(self.fields):
                fs.append(('s', self.OFF, t) if i == self.i_off else ('s', self.POS, t) if i == self.i_pos else ('r', iobj, ()) if i == self.i_in else I.sym(t, 'cursor', n))
            cv = ('a', self.cursor, 0, tuple(fs))
            av = []
            for i, (n, t) in enumerate(P.types[self.auto]['v'][0]['f']):
                if i == self.f_state: av.append(state)
                elif i == self.f_cursor: av.append(cv)
                elif P.types[t]['k'] == 'ref': av.append(('r', I.alloc(st, I.sym(P.types[t]['to'], 'interner', n)), ()))
                else: av.append(I.sym(t, 'auto', n))
            o = I.alloc(st, ('a', self.auto, 0, tuple(av)))
            st.user = dict(st.user, auto=o, byte=byte, bobj=bobj)
            st.mem[(st.frames[-1].uid, 1)] = ('r', o, ())
            if byte is not None:
                for x in (self.BYTE, self.BYTE2):
                    st.facts[x] = byte
                    st.iv[x] = (byte, byte)
            eof = byte is None
            a, b = sorted((self.OFF, self.LEN))
            st.facts[I.mk('Eq', a, b, ('n', self.us))] = int(eof)
            st.facts[I.mk('Lt', self.OFF, self.LEN, ('n', self.us))] = int(not eof)
            st.facts[I.mk('Lt', self.LEN, self.OFF, ('n', self.us))] = 0
            for x in (self.OFF, self.LEN): st.iv[x] = (0, (1 << 62))
        out = []
        for s in I.run(self.next, [None], setup):
            if s.end == 'rpanic' and any(e[0] == 'rpanic' and 'verflow' in str(e) for e in s.events()[-1:]): continue
            cv = self.cursor_value(I, s)
            post = s.user.get('suspended') or I.read(s, s.user['auto'], (('f', self.f_state, self.state),))
            out.append((s.end, post, cv[3][self.i_off], cv[3][self.i_pos], s.ret if s.end == 'return' else None, s))
        return out

def _r(*xs):
    s = set()
    for x in xs: s |= set(range(ord(x[0]), ord(x[-1]) + 1))
    return s
ASCII = {
    'is_ascii_whitespace': lambda b: b in b' \t\n\x0c\r', 'is_ascii_digit': lambda b: b in _r('09'), 'is_ascii_alphabetic': lambda b: b in _r('az', 'AZ'),
    'is_ascii_alphanumeric': lambda b: b in _r('az', 'AZ', '09'), 'is_ascii_graphic': lambda b: 33 <= b <= 126, 'is_ascii_punctuation': lambda b: 33 <= b <= 126 and b not in _r('az', 'AZ', '09'),
    'is_ascii_uppercase': lambda b: b in _r('AZ'), 'is_ascii_lowercase': lambda b: b in _r('az'), 'is_ascii_control': lambda b: b < 32 or b == 127, 'is_ascii': lambda b: b < 128,
    'is_ascii_hexdigit': lambda b: b in _r('af', 'AF', '09')}
