"""Language values with explicit content, and evaluation of a node whose sub-expressions have given values."""
from evalspec import *

class Vals:
    def __init__(self, P, I):
        self.P = P; self.I = I
        self.v = need(ty(P, 'runtime::value::Value'), 'Value')
        self.kinds = [x['n'] for x in P.types[self.v]['v']]
        self.n = 0
    def fti(self, kind): 
        f = self.P.types[self.v]['v'][self.kinds.index(kind)]['f']
        return f[0][1] if f else None
    def mk(self, kind, *fs): return ('a', self.v, self.kinds.index(kind), tuple(fs))
    def sym(self, kind, name):
        """an unknown value of a known kind"""
        return self.I.expand(State(), ('s', self.I.mk('v', name), self.v), self.kinds.index(kind))
    def any(self, name): return ('s', self.I.mk('v', name), self.v)
    def nil(self): return self.mk('Nil')
    def int(self, n): return self.mk('Int', ('k', n & ((1 << 64) - 1), self.fti('Int')))
    def byte(self, n): return self.mk('Byte', ('k', n, self.fti('Byte')))
    def bool(self, b): return self.mk('Bool', ('k', 1 if b else 0, self.fti('Bool')))
    def obj(self, name, v):
        o = ('n', 'V:' + name)
        self.I.const_mem[o] = v
        return o
    def chain(self, ti, name, content):
        """wrap content in the pointer/cell/struct layers of type ti; content is the innermost value (a vec, array or symbol)"""
        t = self.P.types[ti]
        s = t['s']
        if s.startswith(('gc::Gc<', 'std::rc::Rc<', 'std::boxed::Box<', 'std::sync::Arc<')) and s.split('<')[0] in ('gc::Gc', 'std::rc::Rc', 'std::boxed::Box', 'std::sync::Arc'):
            inner = [a for a in t.get('a') or [] if isinstance(a, int)][0]
            self.n += 1
            return ('r', self.obj('%s.%d' % (name, self.n), self.chain(inner, name, content)), ())
        if s.startswith(('gc::GcCell<', 'std::cell::RefCell<')):
            inner = [a for a in t.get('a') or [] if isinstance(a, int)][0]
            return ('a', ti, 'cell', (self.chain(inner, name, content),))
        if t.get('local') and t.get('v') and len(t['v']) == 1 and len(t['v'][0]['f']) == 1:
            return ('a', ti, 0, (self.chain(t['v'][0]['f'][0][1], name, content),))
        if callable(content): return content(ti)
        return content
    def array(self, els, name='arr'):
        return self.mk('Array', self.chain(self.fti('Array'), name, lambda ti: ('a', ti, 'vec', tuple(els))))
    def string(self, bs, name='str'):
        u8 = self.P.ty_by_s['u8']
        els = tuple(('k', b, u8) if isinstance(b, int) else b for b in bs)
        return self.mk('String', self.chain(self.fti('String'), name, lambda ti: ('a', None, 'array', els)))
    def dict(self, name='dict'):
        """dictionary with an unknown map"""
        return self.mk('Dict', self.chain(self.fti('Dict'), name, lambda ti: ('s', self.I.mk('map', name), ti)))
    def symbytes(self, n, name='b'):
        u8 = self.P.ty_by_s['u8']
        return tuple(('s', self.I.mk(name, ('n', i)), u8) for i in range(n))

def content(I, st, v):
    """innermost content of a pointer/cell/newtype chain in the memory of a path"""
    for _ in range(12):
        if v[0] == 'r': v = I.read(st, v[1], v[2])
        elif v[0] == 'a' and v[2] == 'cell': v = v[3][0]
        elif v[0] == 'a' and v[2] == 0 and len(v[3]) == 1: v = v[3][0]
        else: return v
    return v

def presets_hook(E, given):
    """evaluation of sub-nodes whose results are given: {term: builder(I, st) -> language value}"""
    evids = {i: k for k in E.ev for i in E.ev[k]}
    def hook(I, st, c):
        k = evids.get(c.info.get('id'))
        if not k: return None
        t = I.term(st, c.args[1])
        g = given(I)
        if t not in g: return None
        r = E.step_result(I, st, c, k, t)[0]
        tm = r[1][1]
        v = g[t]
        fl = ('a', E.flow_ti, [y['n'] for y in I.types[E.flow_ti]['v']].index('Regular'), (v,))
        if k == 'expr':
            okt = I.types[c.dti]['v'][0]['f'][0][1]
            pt = I.types[okt]['f']
            pt = [x if isinstance(x, int) else x[1] for x in pt]
            ok = ('a', okt, 0, (fl, ('s', E.pos_of(I, tm), pt[1]), ('s', E.self_of(I, tm)[1], pt[2])))
        else: ok = fl
        return [(st, ('a', c.dti, 0, (ok,)))]
    return hook

def find_bytes(I, v, depth=14):
    """byte string constants in a value/term"""
    out = []
    def tm(t, d):
        if d <= 0: return
        k = I.T.t[t]
        if k[0] == 'bytes': out.append(bytes(k[1]) if not isinstance(k[1], str) else k[1].encode()); return
        for p in k[1:]:
            if isinstance(p, bool): continue
            if isinstance(p, int): tm(p, d - 1)
            elif isinstance(p, tuple) and not (p and p[0] == 'n'):
                for q in p:
                    if isinstance(q, int) and not isinstance(q, bool): tm(q, d - 1)
    tm(v, depth)
    return out

def tls_strings(P):
    """{path of a thread local: string constant it is initialised with}"""
    if hasattr(P, '_tls'): return P._tls
    out = {}
    for f in P.fns:
        if f.get('local') and f['n'].endswith('::__rust_std_internal_init_fn') and P.types[f['locals'][0]]['s'] == 'runtime::value::Value':
            I = Interp(P)
            for st in I.run(f, []):
                if st.end == 'return':
                    b = find_bytes(I, I.term(st, st.ret, 14))
                    if len(b) == 1: out[f['n'].rsplit('::', 1)[0]] = b[0].decode('latin1')
    P._tls = out
    return out

def tls_of(I, t, depth=10):
    """path of the thread local a term refers to"""
    if depth <= 0: return None
    k = I.T.t[t]
    if k[0] == 'const' and isinstance(k[1], str) and '::{constant#' in k[1]: return k[1].split('::{constant#')[0]
    for p in k[1:]:
        if isinstance(p, bool): continue
        if isinstance(p, int):
            r = tls_of(I, p, depth - 1)
            if r: return r
        elif isinstance(p, tuple) and not (p and p[0] == 'n'):
            for q in p:
                if isinstance(q, int) and not isinstance(q, bool):
                    r = tls_of(I, q, depth - 1)
                    if r: return r
    return None
