"""Helpers shared by the rules."""
from engine import *

class Anchor(Exception):
    pass

def need(x, what):
    if not x: raise Anchor('anchor not found: ' + what)
    return x

def ty(P, s):
    return P.ty_by_s.get(s)

def tyname(P, ti): return P.types[ti]['s']

def reval(I, st, t, depth=30):
    """re-evaluate a boolean/scalar term under the facts of a path; int or None"""
    if depth <= 0: return None
    f = st.facts.get(t)
    if f is not None: return f
    k = I.T.t[t]
    h = k[0]
    if h == 'k': return k[1][1]
    if h == 'not':
        v = reval(I, st, k[1], depth - 1)
        return None if v is None else 1 - v
    if h == 'disc':
        return None
    if h in ('Eq', 'Lt'):
        a, b = reval(I, st, k[1], depth - 1), reval(I, st, k[2], depth - 1)
        ti = k[3][1]
        if a is None or b is None:
            if h == 'Eq':
                if b is not None and b in st.nots.get(k[1], ()): return 0
                if a is not None and a in st.nots.get(k[2], ()): return 0
            return None
        a, b = I.signed(a, ti), I.signed(b, ti)
        return int(a == b) if h == 'Eq' else int(a < b)
    if h in ('BitAnd', 'BitOr', 'BitXor'):
        a, b = reval(I, st, k[1], depth - 1), reval(I, st, k[2], depth - 1)
        if a is None or b is None: return None
        return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[h]
    if h == 'as':
        return reval(I, st, k[1], depth - 1)
    return None

def boolval(I, st, v):
    """True/False/None for a boolean value on this path"""
    if v[0] == 'k': return bool(v[1])
    if v[0] == 's':
        r = reval(I, st, v[1])
        return None if r is None else bool(r)
    return None

def variants_of(I, st, v, ti):
    """set of variant indices the value may have on this path"""
    t = I.types[ti]
    if v[0] == 'a' and isinstance(v[2], int): return {v[2]}
    if v[0] == 's':
        tm = I.mk('disc', v[1], ('n', ti))
        f = st.facts.get(tm)
        if f is not None: return {i for i, x in enumerate(t['v']) if int(x['d']) == f}
        ex = st.nots.get(tm, ())
        return {i for i, x in enumerate(t['v']) if int(x['d']) not in ex and I.inhabited(x)}
    return set(range(len(t['v'])))

def vnames(I, st, v, ti):
    return {I.types[ti]['v'][i]['n'] for i in variants_of(I, st, v, ti)}

def is_variant(I, v, name):
    return v[0] == 'a' and isinstance(v[2], int) and I.types[v[1]]['k'] == 'enum' and I.types[v[1]]['v'][v[2]]['n'] == name

def vname(I, v):
    if v[0] == 'a' and v[1] is not None and isinstance(v[2], int) and I.types[v[1]]['k'] == 'enum':
        return I.types[v[1]]['v'][v[2]]['n']
    return None

def tnorm(s):
    return s.replace("'static ", '').replace("&'_ ", '&')

# ------------------------------------------------------------------ evaluator exploration
class Eval:
    """Exploration of the tree-walking evaluator, one node at a time.

    A function with the evaluator's signature called on another node is a step ('expr'|'stmt'|'block', node);
    everything else local is inlined."""
    def __init__(self, P):
        self.P = P
        self.expr_ti = need(ty(P, 'semantic::program::Expr'), 'type semantic::program::Expr')
        self.stmt_ti = need(ty(P, 'semantic::program::Statement'), 'type semantic::program::Statement')
        self.block_ti = need(ty(P, 'semantic::program::Block'), 'type semantic::program::Block')
        self.value_ti = need(ty(P, 'runtime::value::Value'), 'type runtime::value::Value')
        self.flow_ti = need(ty(P, 'runtime::flow::Flow'), 'type runtime::flow::Flow')
        self.panic_ti = need(ty(P, 'runtime::panic::Panic'), 'type runtime::panic::Panic')
        self.kinds = [v['n'] for v in P.types[self.value_ti]['v']]
        self.ev = {'expr': {}, 'stmt': {}, 'block': {}}
        for f in P.fns:
            k = self.classify(f)
            if k: self.ev[k][f['id']] = f
        for k in self.ev: need(self.ev[k], 'evaluator of a %s' % k)
        self.call_fns = {f['id'] for f in P.fns if f.get('local') and f['kind'] == 'item' and f['args'] == 5
                         and self.argt(f, 2) == 'runtime::value::Value' and self.argt(f, 3) == '&runtime::value::function::Function'
                         and self.is_rt(f) and self.rett(f) == 'std::result::Result<runtime::value::Value, runtime::panic::Panic>'}
        need(self.call_fns, 'function call routine of the evaluator')
    def argt(self, f, i):
        return tnorm(self.P.types[f['locals'][i]]['s']) if i < len(f['locals']) else ''
    def rett(self, f): return tnorm(self.P.types[f['locals'][0]]['s'])
    def is_rt(self, f): return self.argt(f, 1) == '&mut runtime::Runtime'
    def classify(self, f):
        if not f.get('local') or f['kind'] != 'item' or f['args'] not in (2, 3) or not self.is_rt(f): return None
        if f.get('dk') == 'Closure': return None
        if f['args'] == 3 and self.P.types[f['locals'][3]]['k'] != 'closure': return None
        a, r = self.argt(f, 2), self.rett(f)
        if a == '&semantic::program::Expr' and r == 'std::result::Result<(runtime::flow::Flow, runtime::source::SourcePos, runtime::value::Value), runtime::panic::Panic>': return 'expr'
        if a == '&semantic::program::Statement' and r == 'std::result::Result<runtime::flow::Flow, runtime::panic::Panic>': return 'stmt'
        if a == '&semantic::program::Block' and r == 'std::result::Result<runtime::flow::Flow, runtime::panic::Panic>': return 'block'
        return None
    def entry(self, kind):
        """the plain (2-argument) entry point of a kind"""
        c = [f for f in self.ev[kind].values() if f['args'] == 2]
        need(c, '2-argument evaluator of a ' + kind)
        # several: the one that is called by most
        return sorted(c, key=lambda f: f['id'])[0]

    def explore(self, kind, variant=None, presets=None, opaque=(), hooks=(), entry=None, extra_setup=None, tail=None, **kw):
        """all paths through the evaluator on one node.  presets: {field index: value builder(I)}"""
        P = self.P
        fn = entry or self.entry(kind)
        nti = {'expr': self.expr_ti, 'stmt': self.stmt_ti, 'block': self.block_ti}[kind]
        evids = {}
        for k in self.ev:
            for i in self.ev[k]: evids[i] = k
        box = {}
        def step(I, st, c):
            fid = c.info.get('id')
            k = evids.get(fid)
            if k:
                t = I.term(st, c.args[1])
                if t == box['entry']: return None
                return self.step_result(I, st, c, k, t)
            if fid in self.call_fns and not box.get('in_call'):
                return self.step_result(I, st, c, 'call', I.term(st, c.args[2]))
            n = c.name
            if n.startswith('<runtime::value::Value as std::cmp::'):
                return value_cmp(I, st, c)
            return ident_copy(I, st, c)
        def opq(f):
            n = f['n']
            if n in opaque: return True
            if '::fmt' in n or '_DERIVE_' in n: return True
            if n.startswith('runtime::command') and not n.startswith('runtime::command::exec::error'): return True
            return False
        I = Interp(P, hooks=list(hooks) + [step], opaque=opq, **kw)
        obj = ('h', I.mk('nodeptr'), nti)
        st0 = State()
        v = ('s', I.mk('node'), nti)
        if variant is not None:
            vi = P.variant_index(nti, variant)
            v = I.expand(st0, v, vi)
            if presets:
                fs = list(v[3])
                names = [x[0] for x in P.types[nti]['v'][vi]['f']]
                for nm, b in presets.items():
                    i = names.index(nm) if isinstance(nm, str) else nm
                    fs[i] = b(I, fs[i])
                v = ('a', v[1], v[2], tuple(fs))
        I.const_mem[obj] = v
        I.node = v
        box['entry'] = I.term(st0, ('r', obj, ()))
        if extra_setup: extra_setup(I, box)
        selfp = ('s', I.mk('self'), fn['locals'][1])
        args = [selfp, ('r', obj, ())]
        if fn['args'] == 3: args.append(tail(I) if tail else ('a', fn['locals'][3], 0, ()))
        res = split_results(I, I.run(fn, args))
        return I, res

    def field(self, I, name):
        """value of a field of the explored node"""
        v = I.node
        names = [x[0] for x in I.types[v[1]]['v'][v[2]]['f']]
        return v[3][names.index(name)]
    def node_term(self, I, name, st=None):
        """term under which evaluation of the boxed child node `name` is recorded"""
        st = st or State()
        f = self.field(I, name)
        return I.term(st, f)

    def step_result(self, I, st, c, kind, t):
        st.ctr += 1
        tm = I.mk('eval', kind, t, ('n', st.ctr))
        st.event(('eval', kind, t, tm, st.frames[-1].fn['n'], c.line, tuple(c.args)))
        # the runtime's own state changes: havoc what `self` refers to, but not the node
        a = c.args[0]
        if a[0] == 'r':
            I.write(st, a[1], a[2], I.sym(I.types[c.ats[0]]['to'], 'rt-after', tm))
        elif a[0] == 's':
            obj, path = I.deref(st, a, I.types[c.ats[0]]['to'])
            I.write(st, obj, path, I.sym(I.types[c.ats[0]]['to'], 'rt-after', tm))
        return [(st, ('s', tm, c.dti))]

    # views of a result symbol of an evaluation step
    def flow_of(self, I, tm, kind):
        ok = I.mk('f', I.mk('d', tm, ('n', 0)), ('n', 0))
        return I.mk('f', ok, ('n', 0)) if kind == 'expr' else ok
    def regular_value(self, I, tm, kind):
        fl = self.flow_of(I, tm, kind)
        return ('s', I.mk('f', I.mk('d', fl, ('n', 0)), ('n', 0)), self.value_ti)
    def pos_of(self, I, tm):
        ok = I.mk('f', I.mk('d', tm, ('n', 0)), ('n', 0))
        return I.mk('f', ok, ('n', 1))
    def self_of(self, I, tm):
        ok = I.mk('f', I.mk('d', tm, ('n', 0)), ('n', 0))
        return ('s', I.mk('f', ok, ('n', 2)), self.value_ti)
    def step_outcome(self, I, st, tm, kind):
        """'panic' | 'Regular' | 'Return' | 'Break' | None for what an evaluation step gave on this path"""
        rt = None
        for k, v in st.facts.items():
            kk = I.T.t[k]
            if kk[0] == 'disc' and kk[1] == tm:
                rt = v
        if rt is None: return None
        if rt == 1: return 'panic'
        if kind == 'call': return 'ok'
        fl = ('s', self.flow_of(I, tm, kind), self.flow_ti)
        vs = vnames(I, st, fl, self.flow_ti)
        return next(iter(vs)) if len(vs) == 1 else '|'.join(sorted(vs))

    def outcome(self, I, st, kind):
        """classify how a path of the explored node ends:
        ('panic', Panic value) | ('flow', name, value) | ('?', description)"""
        if st.end == 'return':
            v = st.ret
            if is_variant(I, v, 'Err'): return ('panic', v[3][0])
            if is_variant(I, v, 'Ok'):
                x = v[3][0]
                if kind == 'expr':
                    if x[0] == 's': x = I.expand(st, x)
                    x = x[3][0]
                vs = vnames(I, st, x, self.flow_ti)
                if len(vs) == 1:
                    n = next(iter(vs))
                    if x[0] == 's': x = I.expand(st, x, [y['n'] for y in I.types[self.flow_ti]['v']].index(n))
                    return ('flow', n, x[3][0] if x[3] else None)
                return ('flow', '|'.join(sorted(vs)), x)
            return ('result', v)
        return (st.end, None)

def split_results(I, res):
    """a path that hands on an uninspected Result is one that fails and one that succeeds"""
    out = []
    for st in res:
        v = st.ret if st.end == 'return' else None
        ti = v[2] if v is not None and v[0] == 's' and len(v) > 2 else None
        if ti is not None and I.types[ti]['s'].startswith(('std::result::Result<', 'core::result::Result<')):
            for s2, i, w in I.split_variants(st, v, ti):
                s2.ret, s2.end = w, 'return'
                out.append(s2)
        else: out.append(st)
    return out

def value_cmp(I, st, c):
    """comparison of two language values, as an opaque relation"""
    m = c.m
    a = I.term(st, c.args[0]); b = I.term(st, c.args[1])
    oti = I.P.ty_by_s.get('std::cmp::Ordering')
    if m == 'cmp': return [(st, ('s', I.mk('vcmp', a, b), c.dti))]
    if m == 'partial_cmp':
        return [(st, ('a', c.dti, 1, (('s', I.mk('vcmp', a, b), oti),)))]
    if m in ('eq', 'ne'):
        r = ('s', I.mk('veq', min(a, b), max(a, b)), I.bool_ti)
        return [(st, I.norm(st, r) if m == 'eq' else I.neg(I.norm(st, r)))]
    return None

def ident_copy(I, st, c):
    """copies of language-level values and positions are the value itself"""
    if c.m in ('copy', 'clone') and len(c.args) == 1 and c.local and c.ats[0] is not None:
        t = I.types[c.ats[0]]
        if t['k'] == 'ref' and t['to'] == c.dti:
            obj, path = I.deref(st, c.args[0], t['to'])
            v = I.read(st, obj, path)
            if v[0] != 'u': return [(st, v)]
    return None

def panic_name(I, v):
    n = vname(I, v)
    if n: return n
    return None

def fmt_path(I, st, limit=14):
    out = []
    for e in st.events():
        if e[0] == 'eval': out.append('eval %s %s' % (e[1], I.show(e[2], 6)))
        elif e[0] == 'call': out.append('call %s' % e[1])
    fs = []
    for k, v in st.facts.items():
        kk = I.T.t[k]
        if kk[0] == 'disc':
            t = I.types[kk[2][1]]
            nm = [x['n'] for x in t.get('v', []) if int(x['d']) == v]
            fs.append('%s is %s' % (I.show(kk[1], 5), nm[0] if nm else v))
        else:
            fs.append('%s = %s' % (I.show(k, 5), v))
    return 'steps: ' + '; '.join(out[-limit:]) + ' | on the path where ' + ', '.join(fs[-limit:])

# ------------------------------------------------------------------ term views
def tk(I, t): return I.T.t[t]

def strip_ref(I, t):
    """drop '&' / '*' / clone wrappers around a content term"""
    while True:
        k = I.T.t[t]
        if k[0] in ('&', '*', 'guard', 'cowref', 'slice', 'owned', 'boxed'): t = k[1]
        else: return t

NUM = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'neg': 'Neg'}

def arith_form(I, st, t):
    """(op, operand terms) when the term is the exact result of an integer/float operation on this path, else None"""
    k = I.T.t[t]
    if k[0] == 'f' and k[2] == ('n', 0):
        kk = I.T.t[k[1]]
        if kk[0] == 'd' and kk[2] == ('n', 1):
            c = I.T.t[kk[1]]
            if c[0] == 'call' and c[1].split('::')[-1].startswith('checked_'):
                op = NUM.get(c[1].split('::')[-1][8:])
                if op: return (op, tuple(strip_ref(I, x) for x in c[2]))
        if kk[0] == 'call' and kk[1].split('::')[-1].startswith('overflowing_'):
            ov = I.mk('f', k[1], ('n', 1))
            if st.facts.get(ov) == 0:
                return (NUM.get(kk[1].split('::')[-1][12:]), tuple(strip_ref(I, x) for x in kk[2]))
    if k[0] == 'call':
        n = k[1]
        m = n.split('::')[-1]
        if 'f64 as std::ops::' in n and m in NUM: return ('f' + NUM[m], tuple(strip_ref(I, x) for x in k[2]))
    if k[0] in ('Add', 'Sub', 'Mul', 'Div', 'Rem'): return (k[0], (k[1], k[2]))
    if k[0] == 'Neg': return ('Neg', (k[1],))
    return None

def leaves(I, t, wanted, limit=4000):
    """occurrences of the wanted terms in a term, in order"""
    out = []; n = [0]
    def go(x):
        n[0] += 1
        if n[0] > limit: return
        if x in wanted: out.append(x); return
        for p in I.T.t[x][1:]:
            if isinstance(p, bool): continue
            if isinstance(p, int): go(p)
            elif isinstance(p, tuple) and not (p and p[0] == 'n'):
                for q in p:
                    if isinstance(q, int) and not isinstance(q, bool): go(q)
    go(t)
    return out

def beval(I, st, t, leaf, depth=40):
    """truth of a boolean term; leaf(term tuple, term) -> bool/int/None gives the value of atoms"""
    if depth <= 0: return None
    r = leaf(I.T.t[t], t)
    if r is not None: return r
    f = st.facts.get(t)
    if f is not None: return f
    k = I.T.t[t]
    h = k[0]
    if h == 'k': return k[1][1]
    if h == 'not':
        r = beval(I, st, k[1], leaf, depth - 1)
        return None if r is None else 1 - int(bool(r))
    if h in ('Eq', 'Lt', 'Le'):
        a = beval(I, st, k[1], leaf, depth - 1); b = beval(I, st, k[2], leaf, depth - 1)
        if a is None or b is None: return None
        ti = k[3][1]
        a, b = I.signed(int(a), ti), I.signed(int(b), ti)
        return int({'Eq': a == b, 'Lt': a < b, 'Le': a <= b}[h])
    if h in ('BitAnd', 'BitOr', 'BitXor'):
        a = beval(I, st, k[1], leaf, depth - 1); b = beval(I, st, k[2], leaf, depth - 1)
        if h == 'BitAnd' and (a == 0 or b == 0): return 0
        if h == 'BitOr' and (a == 1 or b == 1): return 1
        if a is None or b is None: return None
        return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[h]
    if h == 'as': return beval(I, st, k[1], leaf, depth - 1)
    return None

def canon(I, st, t):
    """a term known to be a constant on this path, as that constant"""
    f = st.facts.get(t)
    return I.mk('k', ('n', f)) if f is not None else t

# ------------------------------------------------------------------ whole-program views
def natives_all(P):
    """[(std name, call function)], every instance of a generic one"""
    one = natives(P)
    out = []
    for nm, f in one.items():
        for g in P.fns:
            if g.get("local") and g["n"] == f["n"] and g["kind"] == f["kind"] and g["args"] == f["args"] and g.get("m") == "call": out.append((nm, g))
    return sorted(out, key=lambda x: (x[0], x[1]["id"]))

def natives(P):
    """{std name: call function} of the native functions"""
    out = {}
    for f in P.fns:
        if f.get('local') and f.get('m') == 'name' and (f.get('trait') or '').endswith('NativeFun') and f['kind'] == 'item' and f.get('dk') == 'AssocFn':
            I = Interp(P)
            res = [s for s in I.run(f, [('s', I.mk('self'), f['locals'][1])]) if s.end == 'return']
            nm = None
            for s in res:
                v = s.ret
                for _ in range(3):
                    if v[0] == 'r': v = I.read(s, v[1], v[2])
                if v[0] == 'b': nm = v[1]
            c = [g for g in P.fns if g.get('local') and g.get('m') == 'call' and g.get('self') == f.get('self') and (g.get('trait') or '').endswith('NativeFun') and g['kind'] == 'item']
            if c:
                if isinstance(nm, (bytes, bytearray)): nm = nm.decode()
                elif isinstance(nm, (tuple, list)): nm = bytes(nm).decode()
                out[nm or f['self']] = c[0]
    return out

def callees(P):
    """{fn id: set of fn ids it calls, takes the address of or whose closures it contains}"""
    if hasattr(P, '_callees'): return P._callees
    out = {}
    def walk(x, acc):
        if isinstance(x, dict):
            if isinstance(x.get('id'), int): acc.add(x['id'])
            for v in x.values(): walk(v, acc)
        elif isinstance(x, list):
            for v in x: walk(v, acc)
    for f in P.fns:
        acc = set()
        for b in f['bb']: walk(b[1], acc); walk(b[0], acc)
        for l in f['locals']:
            t = P.types[l]
            if t and t['k'] == 'closure' and isinstance(t.get('body'), int): acc.add(t['body'])
        out[f['id']] = acc
    P._callees = out
    return out

def callers(P):
    if hasattr(P, '_callers'): return P._callers
    out = {}
    for a, bs in callees(P).items():
        for b in bs: out.setdefault(b, set()).add(a)
    P._callers = out
    return out

def only_from(P, fid, allowed):
    """is the function used (transitively) only by the allowed functions?"""
    cs = callers(P)
    seen = set(); work = [fid]
    while work:
        x = work.pop()
        if x in allowed or x in seen: continue
        seen.add(x)
        up = cs.get(x, set()) - {x}
        if not up: return False
        work.extend(up)
    return True
