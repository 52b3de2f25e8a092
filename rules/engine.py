"""Path-sensitive abstract interpretation of dumped MIR.

Domain: constants, enum variants, aggregates, references (location, path) and opaque symbols named by
hash-consed provenance terms.  A branch on an opaque symbol is followed both ways and its outcome is
remembered as a fact on that path (variant / constant / excluded constants / interval); there is no
solver and nothing of the program is executed.  Calls to functions with a body are inlined, recursion and
functions a rule declares opaque become events.  Loops are followed for a bounded number of rounds.
"""
import json, sys

class Terms:
    def __init__(self):
        self.ids = {}
        self.t = []
    def mk(self, *k):
        i = self.ids.get(k)
        if i is None:
            i = len(self.t)
            self.ids[k] = i
            self.t.append(k)
        return i

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = d['fns']
        self.impls = d['impls']
        self.generic = d['generic']
        self.owners = d['owners']
        self.next_of = {a: b for a, b in d['iters']}
        self.opt_of_next = {a: self.fns[b]['locals'][0] for a, b in d['iters'] if b is not None}
        self.next_of = {a: b for a, b in d['iters'] if b is not None}
        self.vts = d['vts']
        self.by_name = {}
        for f in self.fns:
            self.by_name.setdefault(f['n'], []).append(f)
        self.ty_by_s = {}
        for i, t in enumerate(self.types):
            if t: self.ty_by_s.setdefault(t['s'], i)
        self.drop_impl = {}
        for im in self.impls:
            if im['trait'] in ('std::ops::Drop', 'core::ops::Drop') :
                for m, fid in im['m']:
                    if m == 'drop' and fid is not None and '_DERIVE_' not in self.fns[fid]['n']:
                        self.drop_impl[im['self']] = fid
        for f in self.fns:
            if f.get('m') == 'drop' and f.get('trait', '').endswith('ops::Drop') and f.get('local') and '_DERIVE_' not in f['n']:
                self.drop_impl.setdefault(f['self'], f['id'])
        self._adt_drop = {}
        for s, fid in self.drop_impl.items():
            self._adt_drop[s.split('<')[0]] = fid
    def fn(self, name):
        r = self.by_name.get(name)
        return r[0] if r else None
    def find(self, pred):
        return [f for f in self.fns if pred(f)]
    def variant_index(self, ti, name):
        for i, v in enumerate(self.types[ti]['v']):
            if v['n'] == name: return i
        raise KeyError(name)
    def tname(self, ti):
        return self.types[ti]['s']

class Cut(Exception):
    pass

SEEN = set()      # functions any interpreter has entered

class Frame:
    __slots__ = ('fn', 'uid', 'bb', 'dest', 'target', 'visits', 'k', 'dest_ti')
    def __init__(s, fn, uid, bb, dest, target, visits, k=None):
        s.fn = fn; s.uid = uid; s.bb = bb; s.dest = dest; s.target = target; s.visits = visits; s.k = k
    def copy(s):
        return Frame(s.fn, s.uid, s.bb, s.dest, s.target, dict(s.visits), s.k)

class State:
    __slots__ = ('mem', 'frames', 'facts', 'nots', 'iv', 'ev', 'ctr', 'end', 'ret', 'user', 'steps')
    def __init__(s):
        s.mem = {}; s.frames = []; s.facts = {}; s.nots = {}; s.iv = {}; s.ev = None; s.ctr = 0
        s.end = None; s.ret = None; s.user = {}; s.steps = 0
    def copy(s):
        n = State()
        n.mem = dict(s.mem); n.frames = [f.copy() for f in s.frames]; n.facts = dict(s.facts); n.nots = dict(s.nots)
        n.iv = dict(s.iv); n.ev = s.ev; n.ctr = s.ctr; n.user = dict(s.user); n.steps = s.steps
        return n
    def event(s, e):
        s.ev = (s.ev, e)
    def events(s):
        out = []; p = s.ev
        while p:
            out.append(p[1]); p = p[0]
        out.reverse()
        return out

UNINIT = ('u',)

class Interp:
    def __init__(self, prog, opaque=None, hooks=None, max_visits=3, max_depth=40, max_paths=20000, max_steps=20000, on_drop=None, inline=None, trace_calls=True):
        self.P = prog
        self.types = prog.types
        self.T = Terms()
        self.opaque = opaque or (lambda f: False)
        self.hooks = hooks or []          # list of callables (interp, st, call) -> None | list of states
        self.max_visits = max_visits
        self.on_block = None              # callable (state, frame) -> True when the path ends here
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.on_drop = on_drop
        self.trace_calls = trace_calls
        self.on_cast = None
        self.recursive = None             # callable (function) -> True when recursive calls of it are followed
        self.const_mem = {}
        self.const_cache = {}
        self.pruned = 0
        self.stats = {'steps': 0, 'calls': 0, 'cut': 0, 'forks': 0, 'fns': set()}
        self.unit_ti = prog.ty_by_s.get('()')
        self.bool_ti = prog.ty_by_s.get('bool')
        self.usize_ti = prog.ty_by_s.get('usize')
        self.model_cache = {}

    # ---- terms & values -------------------------------------------------
    def mk(self, *k): return self.T.mk(*k)
    def sym(self, ti, *k): return ('s', self.T.mk(*k), ti)
    def fresh(self, st, ti, label):
        st.ctr += 1
        return ('s', self.T.mk('fresh', label, st.ctr), ti)
    def unit(self): return ('a', self.unit_ti, 0, ())
    def const(self, v, ti): return ('k', v, ti)
    def boolv(self, b): return ('k', 1 if b else 0, self.bool_ti)

    def show(self, x, depth=12):
        """Readable rendering of a term id or value."""
        if isinstance(x, tuple):
            if not x: return '()'
            h = x[0]
            if h == 'k': 
                t = self.types[x[2]] if x[2] is not None else {'k': 'int', 's': 'int'}
                return str(x[1]) if t['k'] != 'bool' else ('true' if x[1] else 'false')
            if h == 's': return self.show(x[1], depth)
            if h == 'a':
                t = self.types[x[1]] if x[1] is not None else {'s': '?', 'k': '?'}
                nm = t['s'].split('<')[0].split('::')[-1]
                if t['k'] == 'enum' and isinstance(x[2], int): nm = nm + '::' + t['v'][x[2]]['n']
                elif not isinstance(x[2], int): nm = str(x[2])
                return nm + ('(' + ', '.join(self.show(f, depth - 1) for f in x[3]) + ')' if x[3] else '')
            if h == 'r': return '&' + str(x[1]) + ''.join('.' + str(p[1] if isinstance(p, tuple) else p) for p in x[2])
            if h == 'b': return repr(x[1])
            if h == 'fn': return 'fn ' + str(x[1].get('p', x[1].get('decl')))
            return str(x)
        if depth <= 0: return '..'
        k = self.T.t[x]
        out = []
        for p in k:
            if isinstance(p, bool): out.append(str(p))
            elif isinstance(p, int): out.append(self.show(p, depth - 1))
            elif isinstance(p, tuple) and p and p[0] == 'n': out.append(str(p[1]))
            elif isinstance(p, tuple): out.append('[' + ' '.join(self.show(q, depth - 1) if isinstance(q, int) else str(q) for q in p) + ']')
            else: out.append(str(p))
        return '(' + ' '.join(out) + ')'

    def term(self, st, v, depth=6):
        """Canonical term of the (deep) content of a value."""
        h = v[0]
        if h == 's':
            f = st.facts.get(v[1])
            if f is not None and self.types[v[2]]['k'] in ('int', 'uint', 'bool', 'char'):
                return self.T.mk('k', ('n', f))
            return v[1]
        if h == 'k': return self.T.mk('k', ('n', v[1]))
        if h == 'a':
            if depth <= 0: return self.T.mk('agg', '..')
            t = self.types[v[1]] if v[1] is not None else {'s': '?'}
            return self.T.mk('agg', t.get('p', t['s']), str(v[2]), tuple(self.term(st, f, depth - 1) for f in v[3]))
        if h == 'r':
            if depth <= 0: return self.T.mk('ref', '..')
            return self.T.mk('&', self.term(st, self.read(st, v[1], v[2]), depth - 1))
        if h == 'b': return self.T.mk('bytes', v[1])
        if h == 'fn': return self.T.mk('fn', v[1].get('full', v[1].get('decl')))
        return self.T.mk(*[str(x) for x in v])

    # ---- memory ----------------------------------------------------------
    def obj_value(self, st, obj):
        v = st.mem.get(obj)
        if v is not None: return v
        v = self.const_mem.get(obj)
        if v is not None: return v
        if obj[0] == 'h':
            return ('s', self.T.mk('*', obj[1]), obj[2])
        if obj[0] == 'c':
            return ('bytes', obj[1])
        return UNINIT

    def is_ptr_wrapper(self, ti):
        t = self.types[ti]
        return t.get('box') or t.get('p') in ('std::ptr::NonNull', 'std::ptr::Unique', 'core::ptr::NonNull', 'core::ptr::Unique', 'core::ptr::unique::Unique', 'std::ptr::unique::Unique') or (t.get('p') or '').endswith('::Unique')

    def proj(self, st, v, p):
        h = v[0]
        if p == 'cell' or p == 'slice' or p == 'inner':
            if h == 'a' and v[2] == p: return v[3][0]
            if h == 's': return ('s', self.T.mk(p, v[1]), v[2])
            return v
        if p[0] == 'f':
            if h == 'a':
                if isinstance(v[2], int):
                    if p[1] < len(v[3]): return v[3][p[1]]
                    return ('s', self.T.mk('bad'), p[2])
                return ('s', self.T.mk('f', self.term(st, v), ('n', p[1])), p[2])
            if h == 's':
                if self.is_ptr_wrapper(v[2]): return ('s', v[1], p[2])
                k = self.T.t[v[1]]
                return ('s', self.T.mk('f', v[1], ('n', p[1])), p[2])
            if h == 'r': return v       # Box/Unique/NonNull
            if h == 'b': return v
            return ('s', self.T.mk('f?', str(v[0]), ('n', p[1])), p[2])
        if p[0] == 'd':
            if h == 's': return ('s', self.T.mk('d', v[1], ('n', p[1])), v[2])
            return v
        if p[0] == 'x':
            if h == 'a' and v[2] in ('array', 'vec', 0) and p[1][0] == 'k' and p[1][1] < len(v[3]):
                return v[3][p[1][1]]
            if h == 'bytes' and p[1][0] == 'k' and p[1][1] < len(v[1]):
                return ('k', v[1][p[1][1]], p[2])
            return ('s', self.T.mk('x', self.term(st, v), self.term(st, p[1])), p[2])
        if p[0] == 'c':   # constant index
            off, mn, fe = p[1], p[2], p[3]
            if h == 'a' and v[2] in ('array', 'vec', 0):
                i = len(v[3]) - off if fe else off
                if 0 <= i < len(v[3]): return v[3][i]
            return ('s', self.T.mk('ci', self.term(st, v), ('n', off), ('n', 1 if fe else 0)), p[4])
        if p[0] == 'sub':
            if h == 'a' and v[2] in ('array', 'vec', 0):
                fr, to, fe = p[1], p[2], p[3]
                e = len(v[3]) - to if fe else to
                return ('a', v[1], v[2], v[3][fr:e])
            return ('s', self.T.mk('sub', self.term(st, v), ('n', p[1]), ('n', p[2]), ('n', 1 if p[3] else 0)), v[2] if h == 's' else (v[1] if h == 'a' else None))
        return v

    def read(self, st, obj, path):
        v = self.obj_value(st, obj)
        for p in path: v = self.proj(st, v, p)
        return v

    def expand(self, st, v, variant=0):
        """symbolic aggregate -> explicit aggregate"""
        if v[0] != 's': return v
        t = self.types[v[2]]
        if t['k'] in ('struct', 'enum', 'union') and t['v']:
            if t['k'] == 'enum': base = self.T.mk('d', v[1], ('n', variant))
            else: base = v[1]
            if variant >= len(t['v']): return v
            return ('a', v[2], variant, tuple(('s', self.T.mk('f', base, ('n', i)), f[1]) for i, f in enumerate(t['v'][variant]['f'])))
        if t['k'] in ('tuple', 'closure'):
            return ('a', v[2], 0, tuple(('s', self.T.mk('f', v[1], ('n', i)), f) for i, f in enumerate(t['f'])))
        return v

    def upd(self, st, v, path, val, ti_hint=None):
        if not path: return val
        p = path[0]
        if p in ('cell', 'slice', 'inner'):
            if v[0] == 'a' and v[2] == p:
                return ('a', v[1], p, (self.upd(st, v[3][0], path[1:], val),))
            inner = self.proj(st, v, p)
            ti = v[2] if v[0] == 's' else None
            return ('a', ti, p, (self.upd(st, inner, path[1:], val),))
        if p[0] == 'd':
            if v[0] == 's':
                v = self.expand(st, v, p[1])
            elif v[0] == 'a' and v[2] != p[1]:
                t = self.types[v[1]]
                v = ('a', v[1], p[1], tuple(UNINIT for _ in t['v'][p[1]]['f']))
            return self.upd(st, v, path[1:], val)
        if p[0] == 'f':
            if v[0] == 's':
                v = self.expand(st, v)
            if v[0] == 'u':
                # building an aggregate field by field
                fs = [UNINIT] * (p[1] + 1)
                fs[p[1]] = self.upd(st, UNINIT, path[1:], val)
                return ('a', ti_hint, 0, tuple(fs))
            if v[0] == 'a' and isinstance(v[2], int):
                fs = list(v[3])
                while len(fs) <= p[1]: fs.append(UNINIT)
                fs[p[1]] = self.upd(st, fs[p[1]], path[1:], val)
                return ('a', v[1], v[2], tuple(fs))
            return ('s', self.T.mk('upd', self.term(st, v), ('n', p[1]), self.term(st, val)), v[2] if v[0] == 's' else (v[1] if v[0] == 'a' else self.unit_ti))
        if p[0] == 'sub' and v[0] == 'a' and v[2] in ('array', 'vec', 0):
            fr = p[1]; e = len(v[3]) - p[2] if p[3] else p[2]
            w = self.upd(st, ('a', v[1], v[2], v[3][fr:e]), path[1:], val)
            if w[0] == 'a': return ('a', v[1], v[2], v[3][:fr] + tuple(w[3]) + v[3][e:])
        if p[0] in ('x', 'c') and v[0] == 'a' and v[2] in ('array', 'vec', 0):
            i = None
            if p[0] == 'x' and p[1][0] == 'k': i = p[1][1]
            elif p[0] == 'c': i = len(v[3]) - p[1] if p[3] else p[1]
            if i is not None and 0 <= i < len(v[3]):
                fs = list(v[3]); fs[i] = self.upd(st, fs[i], path[1:], val)
                return ('a', v[1], v[2], tuple(fs))
        ti = v[2] if v[0] == 's' else (v[1] if v[0] == 'a' else self.unit_ti)
        idx = self.term(st, p[1]) if p[0] == 'x' else self.T.mk(*[str(q) for q in p])
        inner = self.proj(st, v, p)
        nv = self.upd(st, inner, path[1:], val)
        return ('s', self.T.mk('updx', self.term(st, v), idx, self.term(st, nv)), ti)

    def write(self, st, obj, path, val, ti_hint=None):
        if not path:
            st.mem[obj] = val
            return
        st.mem[obj] = self.upd(st, self.obj_value(st, obj), path, val, ti_hint)

    def lval(self, st, fr, place):
        obj = (fr.uid, place[0])
        path = ()
        ti = fr.fn['locals'][place[0]]
        for e in place[1:]:
            if e == '*':
                v = self.read(st, obj, path)
                t = self.types[ti]
                to = t.get('to')
                if to is None and t.get('a'): to = t['a'][0]
                obj, path = self.deref(st, v, to)
                ti = to
            elif e == 'o':
                pass
            elif e[0] == 'f':
                path = path + (('f', e[1], e[2]),)
                ti = e[2]
            elif e[0] == 'd':
                path = path + (('d', e[1]),)
            elif e[0] == 'i':
                t = self.types[ti]; ti = t.get('e', ti)
                path = path + (('x', self.norm(st, self.read(st, (fr.uid, e[1]), ())), ti),)
            elif e[0] == 'c':
                t = self.types[ti]; ti = t.get('e', ti)
                path = path + (('c', e[1], e[2], e[3], ti),)
            elif e[0] == 's':
                path = path + (('sub', e[1], e[2], e[3]),)
        return obj, path, ti

    def deref(self, st, v, to):
        h = v[0]
        if h == 'r': return v[1], v[2]
        if h == 'b': return ('c', v[1]), ()
        if h == 's':
            # derefs of references to the same term share one object
            if to is None: to = self.types[v[2]].get('to', self.unit_ti)
            return ('h', v[1], to), ()
        if h == 'a' and len(v[3]) >= 1 and v[3][0][0] in ('r', 's', 'b'):
            return self.deref(st, v[3][0], to)
        return ('h', self.T.mk('badderef', str(v)[:80]), to if to is not None else self.unit_ti), ()

    def norm(self, st, v):
        """apply known facts to a scalar symbol"""
        if v[0] == 's':
            f = st.facts.get(v[1])
            if f is not None and self.types[v[2]]['k'] in ('int', 'uint', 'bool', 'char', 'other'): return ('k', f, v[2])
        return v

    # ---- operands & rvalues ---------------------------------------------
    def const_value(self, st, c):
        ti = c['t']
        if 'fn' in c: return ('fn', c['fn'])
        t = self.types[ti]
        if 'bytes' in c: return ('b', bytes(c['bytes']), ti)
        if 'v' in c and t['k'] in ('int', 'uint', 'bool', 'char'):
            return ('k', int(c['v']), ti)
        if 'v' in c and t['k'] == 'float':
            return ('s', self.T.mk('float', c['v']), ti)
        if 'body' in c:
            r = self.eval_const(c['body'])
            if r is not None: return r
        if t['k'] in ('tuple', 'struct') and 'z' in c:
            if t['k'] == 'tuple': return ('a', ti, 0, ())
            if t['v']: return ('a', ti, 0, tuple(('a', f[1], 0, ()) for f in t['v'][0]['f']))
        if t['k'] == 'closure' and 'z' in c: return ('a', ti, 0, ())
        if t['k'] == 'enum' and 'v' in c and all(not v['f'] for v in t['v']):
            for i, v in enumerate(t['v']):
                if int(v['d']) == int(c['v']): return ('a', ti, i, ())
        if t['k'] == 'enum' and str(c.get('v')) == '0' and len(t['v']) == 2:
            # a null pointer stands for the variant without a payload
            empty = [i for i, v in enumerate(t['v']) if not v['f']]; full = [v for v in t['v'] if len(v['f']) == 1]
            if len(empty) == 1 and len(full) == 1:
                pt = self.types[full[0]['f'][0][1]]
                if pt['k'] in ('ref', 'ptr') or pt.get('box'): return ('a', ti, empty[0], ())
        if t['k'] == 'enum' and 'z' in c and len(t['v']) == 1:
            return ('a', ti, 0, ())
        nm = c.get('name') or c.get('static') or c.get('v') or str(ti)
        return ('s', self.T.mk('const', nm, t['s']), ti)

    def eval_const(self, fid):
        if fid in self.const_cache: return self.const_cache[fid]
        self.const_cache[fid] = None
        fn = self.P.fns[fid]
        sub = Interp(self.P)
        sub.T = self.T; sub.const_mem = self.const_mem; sub.const_cache = self.const_cache
        st = State()
        fr = Frame(fn, ('p', fid), 0, None, None, {})
        st.frames.append(fr)
        st.user['keep'] = True
        try:
            res = sub.run_states([st])
        except Exception:
            return None
        if len(res) != 1 or res[0].end != 'return': return None
        st = res[0]
        for k, v in st.mem.items():
            self.const_mem[k] = v
        self.const_cache[fid] = st.ret
        return st.ret

    def operand(self, st, fr, o):
        if o[0] == 'k': return self.const_value(st, o[1])
        if o[0] == 'rt': return ('k', 1, self.bool_ti)
        obj, path, ti = self.lval(st, fr, o[1])
        v = self.read(st, obj, path)
        if v[0] == 'u':
            return ('s', self.T.mk('uninit', fr.fn['n'], str(o[1])), ti)
        return v

    CMP = ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge')

    def signed(self, v, ti):
        t = self.types[ti]
        if t['k'] == 'int':
            b = t['b']
            if v >= 1 << (b - 1): v -= 1 << b
        return v

    def neg(self, v):
        if v[0] == 'k': return ('k', 1 - v[1], v[2])
        k = self.T.t[v[1]]
        if k[0] == 'not': return ('s', k[1], v[2])
        return ('s', self.T.mk('not', v[1]), v[2])

    def binop(self, st, op, a, b, ti):
        a = self.norm(st, a); b = self.norm(st, b)
        t = self.types[ti]
        if a[0] == 'k' and b[0] == 'k':
            x, y = self.signed(a[1], ti), self.signed(b[1], ti)
            if op in self.CMP:
                r = {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
                return self.boolv(r)
            base = op.replace('WithOverflow', '').replace('Unchecked', '')
            if base in ('Add', 'Sub', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Div', 'Rem') and not (base in ('Div', 'Rem') and y == 0):
                if base == 'Div': z = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                elif base == 'Rem': z = abs(x) % abs(y) * (1 if x >= 0 else -1)
                else: z = {'Add': x + y, 'Sub': x - y, 'Mul': x * y, 'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[base]
                bits = t.get('b', 1 if t['k'] == 'bool' else 64)
                lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if t['k'] == 'int' else (0, (1 << bits) - 1)
                ov = not (lo <= z <= hi)
                w = ('k', z & ((1 << bits) - 1), ti)
                if op.endswith('WithOverflow'): return ('a', None, 0, (w, self.boolv(ov)))
                return w
        ta, tb = self.term(st, a), self.term(st, b)
        if op in self.CMP:
            if ta == tb and t['k'] != 'float': return self.boolv(op in ('Eq', 'Le', 'Ge'))
            if op == 'Ne': return self.neg(self.binop(st, 'Eq', a, b, ti))
            if op == 'Gt': return self.binop(st, 'Lt', b, a, ti)
            if op == 'Ge' and t['k'] != 'float': return self.neg(self.binop(st, 'Lt', a, b, ti))
            if op == 'Le' and t['k'] != 'float': return self.neg(self.binop(st, 'Lt', b, a, ti))
            if op == 'Ge': return self.binop(st, 'Le', b, a, ti)
            if t['k'] in ('int', 'uint', 'char', 'bool'):
                # decide from intervals
                la, ha = self.bounds(st, a, ti); lb, hb = self.bounds(st, b, ti)
                if op == 'Lt':
                    if ha < lb: return self.boolv(True)
                    if la >= hb: return self.boolv(False)
                if op == 'Eq':
                    if ha < lb or hb < la: return self.boolv(False)
                    if b[0] == 'k' and b[1] in st.nots.get(ta, ()): return self.boolv(False)
                    if a[0] == 'k' and a[1] in st.nots.get(tb, ()): return self.boolv(False)
                    if t['k'] == 'bool':
                        if b[0] == 'k': return a if b[1] else self.neg(a)
                        if a[0] == 'k': return b if a[1] else self.neg(b)
            if op == 'Eq' and tb < ta and a[0] != 'k':   # canonical operand order
                if b[0] != 'k': a, b, ta, tb = b, a, tb, ta
            if op == 'Eq' and a[0] == 'k': a, b, ta, tb = b, a, tb, ta
            # remember the operand type so that assumptions can refine intervals
            return ('s', self.T.mk(op, ta, tb, ('n', ti)), self.bool_ti)
        if op in ('Add', 'Sub', 'AddWithOverflow', 'SubWithOverflow') and t['k'] in ('int', 'uint') and (ta in st.iv or tb in st.iv):
            base = op.replace('WithOverflow', '')
            la, ha = self.bounds(st, a, ti); lb, hb = self.bounds(st, b, ti)
            lo, hi = (la + lb, ha + hb) if base == 'Add' else (la - hb, ha - lb)
            bits = t.get('b', 64)
            tl, th = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if t['k'] == 'int' else (0, (1 << bits) - 1)
            if tl <= lo and hi <= th:
                rt = self.T.mk(base, ta, tb)
                if rt not in st.iv: st.iv[rt] = (lo, hi)
                r = ('s', rt, ti)
                return ('a', None, 0, (r, self.boolv(False))) if op != base else r
        if op.endswith('WithOverflow'):
            base = op[:-len('WithOverflow')]
            r = ('s', self.T.mk(base, ta, tb), ti)
            return ('a', None, 0, (r, ('s', self.T.mk('ovf', base, ta, tb), self.bool_ti)))
        if t['k'] == 'bool' and op in ('BitAnd', 'BitOr'):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'k':
                    if op == 'BitAnd': return y if x[1] else x
                    return x if x[1] else y
        return ('s', self.T.mk(op.replace('Unchecked', ''), ta, tb), ti)

    def bounds(self, st, v, ti):
        t = self.types[ti]
        if v[0] == 'k':
            x = self.signed(v[1], ti); return x, x
        if v[0] == 's' and v[1] in st.iv: return st.iv[v[1]]
        b = t.get('b', 32 if t['k'] == 'char' else 1)
        if t['k'] == 'int': return -(1 << (b - 1)), (1 << (b - 1)) - 1
        if v[0] == 's':
            k = self.T.t[v[1]]
            if k[0] in ('len',): return 0, (1 << 63) - 1
        return 0, (1 << b) - 1

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use': return self.operand(st, fr, r[1])
        if k == 'ref' or k == 'addr':
            pl = r[2] if k == 'ref' else r[1]
            # reborrow &*p of an opaque or constant pointer: keep the pointer
            if len(pl) >= 2 and pl[-1] == '*':
                obj, path, ti = self.lval(st, fr, pl[:-1])
                v = self.read(st, obj, path)
                if v[0] in ('r', 'b'): return v
                if v[0] == 's' and self.types[v[2]]['k'] in ('ref', 'ptr'): return v
            obj, path, ti = self.lval(st, fr, pl)
            if path and path[-1] and path[-1][0] == 'sub':
                pass
            return ('r', obj, path)
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[4])
        if k == 'un':
            v = self.norm(st, self.operand(st, fr, r[2]))
            if r[1] == 'Not':
                if self.types[r[3]]['k'] == 'bool': return self.neg(v)
                if v[0] == 'k': return ('k', (~v[1]) & ((1 << self.types[r[3]]['b']) - 1), v[2])
            if r[1] == 'PtrMetadata':
                return self.len_of(st, v)
            if r[1] == 'Neg' and v[0] == 'k':
                return ('k', (-v[1]) & ((1 << self.types[r[3]]['b']) - 1), v[2])
            return ('s', self.T.mk(r[1], self.term(st, v)), r[3])
        if k == 'disc':
            obj, path, ti = self.lval(st, fr, r[1])
            return self.discr(st, self.read(st, obj, path), r[2])
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r[4])
            if r[1] == 'array': return ('a', r[2], 'array', ops)
            if r[1] == 'rawptr': return ops[0]
            return ('a', r[2], r[3], ops)
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            return self.cast(st, r[1], v, r[3], r[4])
        if k == 'rep':
            v = self.operand(st, fr, r[1])
            if r[2] is not None and r[2] <= 16: return ('a', None, 'array', (v,) * r[2])
            return ('s', self.T.mk('rep', self.term(st, v), ('n', r[2])), self.unit_ti)
        return self.fresh(st, self.unit_ti, 'rv')

    def len_of(self, st, v):
        v2 = v
        if v[0] == 'r': v2 = self.read(st, v[1], v[2])
        elif v[0] == 'b': return ('k', len(v[1]), self.usize_ti)
        if v2[0] == 'a' and v2[2] in ('vec', 'array'): return ('k', len(v2[3]), self.usize_ti)
        if v2[0] == 'bytes': return ('k', len(v2[1]), self.usize_ti)
        if v2[0] == 'a' and len(v2[3]) == 1: return self.len_of(st, v2[3][0])
        if v2[0] == 'r' : return self.len_of(st, v2)
        if v[0] == 's': return self.norm(st, ('s', self.T.mk('len', self.T.mk('*', v[1])), self.usize_ti))
        return self.norm(st, ('s', self.T.mk('len', self.term(st, v2)), self.usize_ti))

    def discr(self, st, v, ti):
        t = self.types[ti]
        if v[0] == 'a' and isinstance(v[2], int) and t['k'] == 'enum':
            return ('k', int(t['v'][v[2]]['d']), None)
        if v[0] == 's':
            tm = self.T.mk('disc', v[1], ('n', ti))
            f = st.facts.get(tm)
            if f is not None: return ('k', f, None)
            if t['k'] == 'enum' and len(t['v']) == 1: return ('k', int(t['v'][0]['d']), None)
            return ('s', tm, self.usize_ti)
        return ('s', self.T.mk('disc', self.term(st, v), ('n', ti)), self.usize_ti)

    def cast(self, st, kind, v, fti, tti):
        v = self.norm(st, v)
        if kind.startswith('IntToInt'):
            if v[0] == 'k':
                x = self.signed(v[1], fti) if v[2] is None or self.types[fti]['k'] == 'int' else v[1]
                b = self.types[tti].get('b', 64)
                return ('k', x & ((1 << b) - 1), tti)
            ft, tt = self.types[fti], self.types[tti]
            if self.types[fti]['k'] == 'enum' and v[0] == 'a' and isinstance(v[2], int):
                return ('k', int(ft['v'][v[2]]['d']), tti)
            if self.on_cast is not None and v[0] == 's' and ft['k'] in ('int', 'uint') and tt['k'] in ('int', 'uint'):
                lo, hi = self.bounds(st, v, fti)
                b = tt.get('b', 64)
                if (lo < (-(1 << (b - 1)) if tt['k'] == 'int' else 0)) or hi > ((1 << (b - 1)) - 1 if tt['k'] == 'int' else (1 << b) - 1): self.on_cast(st, v, fti, tti)
            return ('s', self.T.mk('as', self.term(st, v), ft['s'], tt['s']), tti)
        if kind.startswith('FloatToInt') or kind.startswith('IntToFloat') or kind.startswith('FloatToFloat'):
            return ('s', self.T.mk('as', self.term(st, v), self.types[fti]['s'], self.types[tti]['s']), tti)
        if kind.startswith('PointerExpose'): return ('s', self.T.mk('as', self.term(st, v), self.types[fti]['s'], self.types[tti]['s']), tti)
        if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind: return v
        if v[0] == 's' and ('Transmute' in kind or 'Ptr' in kind or 'Pointer' in kind):
            return ('s', v[1], tti)
        return v

    # ---- facts ------------------------------------------------------------
    def assume(self, st, term, val):
        """record term == val; False when contradictory"""
        k = self.T.t[term]
        if k[0] == 'not': return self.assume(st, k[1], 1 - val)
        if term in st.facts: return st.facts[term] == val
        if val in st.nots.get(term, ()): return False
        iv = st.iv.get(term)
        if iv and not (iv[0] <= val <= iv[1]) and k[0] != 'disc': return False
        st.facts[term] = val
        if k[0] == 'Eq':
            a, b, ti = k[1], k[2], k[3][1]
            kb = self.T.t[b]
            if kb[0] == 'k':
                c = kb[1][1]
                if val: return self.assume(st, a, c)
                return self.exclude(st, a, c)
        if k[0] == 'Lt':
            a, b, ti = k[1], k[2], k[3][1]
            if self.types[ti]['k'] in ('int', 'uint', 'char'):
                ka, kb = self.T.t[a], self.T.t[b]
                if kb[0] == 'k':
                    c = self.signed(kb[1][1], ti)
                    lo, hi = self.bounds(st, ('s', a, ti), ti)
                    st.iv[a] = (lo, min(hi, c - 1)) if val else (max(lo, c), hi)
                    return self.chk(st, a, ti)
                if ka[0] == 'k':
                    c = self.signed(ka[1][1], ti)
                    lo, hi = self.bounds(st, ('s', b, ti), ti)
                    st.iv[b] = (max(lo, c + 1), hi) if val else (lo, min(hi, c))
                    return self.chk(st, b, ti)
        return True

    def chk(self, st, t, ti):
        lo, hi = st.iv[t]
        ex = st.nots.get(t, ())
        while lo <= hi and lo in ex: lo += 1
        while hi >= lo and hi in ex: hi -= 1
        if lo > hi: return False
        st.iv[t] = (lo, hi)
        if lo == hi and t not in st.facts:
            st.facts[t] = lo & ((1 << self.types[ti].get('b', 64)) - 1)
        return True

    def exclude(self, st, term, val):
        k = self.T.t[term]
        if k[0] == 'not': return self.exclude(st, k[1], 1 - val)
        if term in st.facts: return st.facts[term] != val
        st.nots[term] = st.nots.get(term, frozenset()) | {val}
        if term in st.iv:
            lo, hi = st.iv[term]
            while lo <= hi and lo in st.nots[term]: lo += 1
            while hi >= lo and hi in st.nots[term]: hi -= 1
            if lo > hi: return False
            st.iv[term] = (lo, hi)
        if k[0] == 'disc':
            t = self.types[k[2][1]]
            rest = [int(v['d']) for v in t.get('v', []) if int(v['d']) not in st.nots[term] and self.inhabited(v)]
            if not rest: return False
            if len(rest) == 1: st.facts[term] = rest[0]
        return True

    def inhabited(self, variant):
        return not any(self.types[f[1]]['k'] == 'never' or (self.types[f[1]]['k'] == 'enum' and not self.types[f[1]]['v']) for f in variant['f'])

    def opt_ti(self):
        r = getattr(self, '_opt_ti', None)
        if r is None:
            for i, t in enumerate(self.types):
                if t and t['k'] == 'enum' and t['s'].startswith('std::option::Option<'): r = i; break
            self._opt_ti = r
        return r

    # fork helper: returns [(state, bool)]
    def decide(self, st, v):
        v = self.norm(st, v)
        if v[0] == 'k': return [(st, bool(v[1]))]
        if v[0] != 's': return [(st, True)]
        a = st.copy()
        out = []
        if self.assume(a, v[1], 1): out.append((a, True))
        if self.assume(st, v[1], 0): out.append((st, False))
        return out

    def split_variants(self, st, v, ti):
        """fork over the variants of an enum value: [(state, variant index, value)]"""
        t = self.types[ti]
        if v[0] == 'a' and isinstance(v[2], int): return [(st, v[2], v)]
        if v[0] != 's': return [(st, i, v) for i in range(1)]
        out = []
        tm = self.T.mk('disc', v[1], ('n', ti))
        for i, var in enumerate(t['v']):
            if not self.inhabited(var): continue
            s2 = st.copy()
            if self.assume(s2, tm, int(var['d'])):
                out.append((s2, i, self.expand(s2, v, i)))
        return out

    # ---- driver -------------------------------------------------------------
    def run(self, fn, args, setup=None):
        st = State()
        fr = self.new_frame(st, fn, None, None)
        for i, a in enumerate(args):
            st.mem[(fr.uid, i + 1)] = a
        st.frames.append(fr)
        if setup: setup(st)
        return self.run_states([st])

    def new_frame(self, st, fn, dest, target, k=None):
        st.ctr += 1
        self.stats['fns'].add(fn['id'])
        SEEN.add(fn['id'])
        return Frame(fn, ('F', st.ctr), 0, dest, target, {}, k)

    def run_states(self, work):
        done = []
        while work:
            st = work.pop()
            try:
                nxt = self.step_path(st)
            except Cut:
                st.end = 'cut'; self.stats['cut'] += 1
                done.append(st); continue
            if nxt is None:
                done.append(st)
                if len(done) > self.max_paths: raise RuntimeError('too many paths')
            else:
                if len(nxt) > 1: self.stats['forks'] += 1
                work.extend(nxt)
        return done

    def step_path(self, st):
        """run until the path ends or forks"""
        while True:
            if st.end: return None
            fr = st.frames[-1]
            r = self.step_block(st, fr)
            if r is not None:
                return r

    def step_block(self, st, fr):
        st.steps += 1
        self.stats['steps'] += 1
        if st.steps > self.max_steps: raise Cut()
        bb = fr.bb
        n = fr.visits.get(bb, 0) + 1
        fr.visits[bb] = n
        if n > self.max_visits: raise Cut()
        if self.on_block is not None and self.on_block(st, fr): return None
        stmts, term, line, _ = fr.fn['bb'][bb]
        mem = st.mem
        for s in stmts:
            op = s[0]
            if op == '=':
                v = self.rvalue(st, fr, s[2])
                if len(s[1]) == 1:
                    if v[0] == 'a' and v[1] is None: v = ('a', fr.fn['locals'][s[1][0]], v[2], v[3])
                    mem[(fr.uid, s[1][0])] = v
                else:
                    obj, path, ti = self.lval(st, fr, s[1])
                    self.write(st, obj, path, v, self.hint(st, fr, s[1]))
            elif op == 'sd':
                obj, path, ti = self.lval(st, fr, s[1])
                v = self.read(st, obj, path)
                if v[0] == 'a': nv = ('a', v[1], s[2], v[3])
                else: nv = self.expand(st, ('s', self.T.mk('uninit'), ti), s[2])
                self.write(st, obj, path, nv)
        k = term[0]
        if k == 'goto':
            fr.bb = term[1]; return None
        if k == 'switch': return self.do_switch(st, fr, term)
        if k == 'ret': return self.do_return(st, fr)
        if k == 'call': return self.do_call(st, fr, term, line)
        if k == 'drop': return self.do_drop(st, fr, term, line)
        if k == 'assert': return self.do_assert(st, fr, term, line)
        if k == 'unreachable':
            st.end = 'unreachable'; return None
        st.end = k; return None

    def hint(self, st, fr, place):
        return fr.fn['locals'][place[0]] if place[1:] and place[1] != '*' else None

    def do_switch(self, st, fr, term):
        v = self.norm(st, self.operand(st, fr, term[1]))
        if v[0] == 'k':
            for val, bb in term[2]:
                if int(val) == v[1]:
                    fr.bb = bb; return None
            fr.bb = term[3]; return None
        if v[0] != 's':
            # unknown: try everything
            v = self.sym(term[4], 'sw', self.term(st, v))
        tm = v[1]
        kk = self.T.t[tm]
        neg = False
        out = []
        iv = st.iv.get(tm)
        allowed = None
        if kk[0] == 'disc':
            t = self.types[kk[2][1]]
            if t['k'] == 'enum': allowed = {int(x['d']) for x in t['v'] if self.inhabited(x)}
        others = st
        seen = []
        for val, bb in term[2]:
            val = int(val)
            seen.append(val)
            if allowed is not None and val not in allowed: continue
            sv = self.signed(val, term[4]) if self.types[term[4]]['k'] == 'int' else val
            if iv and kk[0] != 'disc' and not (iv[0] <= sv <= iv[1]): continue
            s2 = st.copy()
            if self.assume(s2, tm, val):
                s2.frames[-1].bb = bb
                out.append(s2)
        ob = term[3]
        if self.types[term[4]]['k'] == 'bool' and set(seen) >= {0, 1}: return out
        if allowed is not None and allowed <= set(seen) | set(st.nots.get(tm, ())): 
            return self.forked(st, out)
        # an 'otherwise' that is plainly unreachable
        ot = fr.fn['bb'][ob]
        if ot[1][0] == 'unreachable' and not ot[0]:
            return self.forked(st, out)
        if self.types[term[4]]['k'] == 'bool' and len(seen) == 1:
            if self.assume(st, tm, 1 - seen[0]):
                fr.bb = ob; out.append(st)
            return self.forked(st, out)
        ok = True
        for val in seen:
            if not self.exclude(st, tm, val): ok = False; break
        if ok:
            fr.bb = ob; out.append(st)
        return self.forked(st, out)

    def forked(self, st, out):
        if not out:
            st.end = 'infeasible'
        return out

    def do_assert(self, st, fr, term, line):
        v = self.norm(st, self.operand(st, fr, term[1]))
        exp = 1 if term[2] else 0
        if v[0] == 'k':
            if v[1] == exp:
                fr.bb = term[4]; return None
            st.event(('rpanic', term[3], fr.fn['n'], line)); st.end = 'rpanic'; return None
        st.event(('assert', term[3], fr.fn['n'], line, term[5], self.term(st, v)))
        if v[0] == 's' and not self.assume(st, v[1], exp):
            st.end = 'rpanic'; return None
        fr.bb = term[4]
        return None

    def do_return(self, st, fr):
        v = self.obj_value(st, (fr.uid, 0))
        if v[0] == 'u':
            t = self.types[fr.fn['locals'][0]]
            v = ('a', fr.fn['locals'][0], 0, ()) if t['k'] == 'tuple' else ('s', self.T.mk('uninit-ret', fr.fn['n']), fr.fn['locals'][0])
        st.frames.pop()
        if not st.user.get('keep') and st.frames:
            uid = fr.uid
            for l in range(len(fr.fn['locals'])):
                st.mem.pop((uid, l), None)
        if not st.frames and fr.k is None:
            st.ret = v; st.end = 'return'
            return None
        if fr.k is not None:
            return fr.k(self, st, v)
        self.ret_to(st, fr.dest, fr.target, v)
        return None

    def ret_to(self, st, dest, target, v):
        """store a call result in the current top frame and continue there"""
        fr = st.frames[-1]
        if target is None:
            st.end = 'diverge'; return
        if v[0] == 'a' and v[1] is None and len(dest) == 1: v = ('a', fr.fn['locals'][dest[0]], v[2], v[3])
        obj, path, ti = self.lval(st, fr, dest)
        self.write(st, obj, path, v)
        fr.bb = target

    def do_drop(self, st, fr, term, line):
        place, target, ti, needs = term[1], term[2], term[3], term[4]
        fr.bb = target
        if not needs: return None
        obj, path, _ = self.lval(st, fr, place)
        v = self.read(st, obj, path)
        if v[0] == 'u': return None
        if self.on_drop:
            r = self.on_drop(self, st, v, ti, fr, line)
            if r is not None: return r
        t = self.types[ti]
        fid = self.P.drop_impl.get(t['s'])
        if fid is None and t.get('p'): fid = self.P._adt_drop.get(t['p'])
        if fid is not None and t.get('local'):
            nf = self.new_frame(st, self.P.fns[fid], None, None, k=lambda I, s, r: None)
            st.mem[(nf.uid, 1)] = ('r', obj, path)
            st.frames.append(nf)
        return None

    # ---- calls ---------------------------------------------------------------
    def do_call(self, st, fr, term, line):
        info = term[1]
        args = [self.operand(st, fr, o) for o in term[2]]
        dest, target, dti, ats = term[3], term[4], term[5], term[6]
        if 'op' in info:
            f = self.operand(st, fr, info['op'])
            if f[0] == 'fn': info = f[1]
            elif f[0] == 'a' and f[1] is not None and self.types[f[1]]['k'] == 'closure':
                return self.invoke(st, f, args, dest, target, dti, line)
            else:
                info = {'decl': '<indirect>', 'm': '<indirect>', 'p': '<indirect>', 'a': [], 'callee': f}
        return self.call(st, info, args, ats, dest, target, dti, line)

    def call(self, st, info, args, ats, dest, target, dti, line, k=None):
        self.stats['calls'] += 1
        c = Call(self, st, info, args, ats, dest, target, dti, line, k)
        for h in self.hooks:
            r = h(self, st, c)
            if r is not None: return c.finish(r)
        r = MODELS(self, st, c)
        if r is not None: return c.finish(r)
        fid = info.get('id')
        if fid is not None:
            fn = self.P.fns[fid]
            if not self.opaque(fn) and len(st.frames) < self.max_depth and (not any(f.fn['id'] == fid for f in st.frames[-12:]) or self.recursive is not None and self.recursive(fn)):
                return self.enter(st, fn, args, dest, target, k)
        return c.finish(self.opaque_call(st, c))

    def enter(self, st, fn, args, dest, target, k=None):
        nf = self.new_frame(st, fn, dest, target, k)
        if fn.get('dk') == 'Closure' and len(args) == 2 and fn['args'] != 2 or (fn.get('dk') == 'Closure' and len(args) == 2 and args[1][0] == 'a' and args[1][1] is not None and self.types[args[1][1]]['k'] == 'tuple' and fn.get('kind') in ('item', 'generic')):
            tup = args[1]
            if tup[0] == 's': tup = self.expand(st, tup)
            if tup[0] == 'a': args = [args[0]] + list(tup[3])
        if fn.get('spread') is not None and False: pass
        for i, a in enumerate(args):
            st.mem[(nf.uid, i + 1)] = a
        st.frames.append(nf)
        return None

    def invoke(self, st, f, args, dest, target, dti, line, k=None):
        """call a closure / fn value with already untupled args"""
        if f[0] == 'r':
            inner = self.read(st, f[1], f[2])
            if inner[0] in ('fn',): f = inner
            elif inner[0] == 'a': return self.invoke_closure(st, inner, f, args, dest, target, k)
            elif inner[0] == 'r': return self.invoke(st, inner, args, dest, target, dti, line, k)
            else: f = inner
        if f[0] == 'fn':
            ats = [None] * len(args)
            fid = f[1].get('id')
            if fid is not None and self.P.fns[fid]['args'] == len(args):
                ats = list(self.P.fns[fid]['locals'][1:len(args) + 1])
                if dti is None: dti = self.P.fns[fid]['locals'][0]
            return self.call(st, f[1], args, ats, dest, target, dti, line, k)
        if f[0] == 'a' and f[1] is not None and self.types[f[1]]['k'] == 'closure':
            return self.invoke_closure(st, f, None, args, dest, target, k)
        c = Call(self, st, {'decl': '<indirect>', 'p': '<indirect>', 'm': '<indirect>', 'a': []}, [f] + list(args), [None] * (1 + len(args)), dest, target, dti, line, k)
        return c.finish(self.opaque_call(st, c))

    def invoke_closure(self, st, clo, ref, args, dest, target, k=None):
        t = self.types[clo[1]]
        if t['k'] != 'closure' or t.get('body') is None:
            c = Call(self, st, {'decl': '<closure>', 'p': '<closure>', 'm': '<closure>', 'a': []}, [clo] + list(args), [None] * (1 + len(args)), dest, target, self.unit_ti, 0, k)
            return c.finish(self.opaque_call(st, c))
        fn = self.P.fns[t['body']]
        nf = self.new_frame(st, fn, dest, target, k)
        byref = self.types[fn['locals'][1]]['k'] == 'ref'
        if byref and ref is None:
            obj = self.alloc(st, clo); ref = ('r', obj, ())
        st.mem[(nf.uid, 1)] = ref if byref else clo
        for i, a in enumerate(args): st.mem[(nf.uid, i + 2)] = a
        st.frames.append(nf)
        return None

    def alloc(self, st, v):
        st.ctr += 1
        obj = ('n', st.ctr)
        st.mem[obj] = v
        return obj

    def havoc(self, st, r, pt, tm, depth=3):
        """what r points to may have been changed by a call; pointers stored there are kept, what they point to may have changed as well"""
        v = self.read(st, r[1], r[2])
        t = self.types[pt]
        if depth > 0 and v[0] == 'a' and v[2] == 0 and t['k'] == 'struct' and t.get('v') and len(t['v'][0]['f']) == len(v[3]) and any(x[0] == 'r' and self.types[f[1]]['k'] == 'ref' for x, f in zip(v[3], t['v'][0]['f'])):
            out = []
            for i, (x, f) in enumerate(zip(v[3], t['v'][0]['f'])):
                ft = self.types[f[1]]
                ftm = self.T.mk('f', tm, ('n', i))
                if x[0] == 'r' and ft['k'] == 'ref':
                    out.append(x)
                    if ft.get('mut'): self.havoc(st, x, ft['to'], self.T.mk('*', ftm), depth - 1)
                else: out.append(('s', ftm, f[1]))
            self.write(st, r[1], r[2], ('a', v[1], v[2], tuple(out)))
            return
        self.write(st, r[1], r[2], ('s', tm, pt))

    def opaque_call(self, st, c):
        """event; result is a term; what is reachable by &mut arguments changes"""
        name = c.name
        ts = tuple(self.term(st, a) for a in c.args)
        pure = is_pure(c)
        if pure: t = self.T.mk('call', name, ts)
        else:
            st.ctr += 1
            muts = [i for i, ti in enumerate(c.ats) if ti is not None and self.types[ti]['k'] == 'ref' and self.types[ti].get('mut')]
            if muts and not c.local: t = self.T.mk('call', name, ts)
            else: t = self.T.mk('call', name, ts, ('n', st.ctr))
        if self.trace_calls and not pure:
            st.event(('call', name, tuple(c.args), ts, t, st.frames[-1].fn['n'] if st.frames else '', c.line, c.info))
        for i, a in enumerate(c.args):
            ti = c.ats[i] if i < len(c.ats) else None
            if a[0] == 'r' and ti is not None and self.types[ti]['k'] == 'ref' and self.types[ti].get('mut'):
                pt = self.types[ti]['to']
                self.havoc(st, a, pt, self.T.mk('mut', t, ('n', i)))
            elif a[0] == 's' and ti is not None and self.types[ti]['k'] == 'ref' and self.types[ti].get('mut'):
                obj, path = self.deref(st, a, self.types[ti]['to'])
                self.write(st, obj, path, ('s', self.T.mk('mut', t, ('n', i)), self.types[ti]['to']))
        if c.dti is not None and self.types[c.dti]['k'] == 'never':
            st.event(('noreturn', name, ts, st.frames[-1].fn['n'] if st.frames else '', c.line))
            st.end = 'diverge'
            return []
        if c.dti is not None and self.types[c.dti]['k'] == 'tuple' and not self.types[c.dti]['f']:
            return [(st, self.unit())]
        return [(st, ('s', t, c.dti if c.dti is not None else self.unit_ti))]


class Call:
    __slots__ = ('I', 'st', 'info', 'args', 'ats', 'dest', 'target', 'dti', 'line', 'k', 'name', 'local', 'm')
    def __init__(s, I, st, info, args, ats, dest, target, dti, line, k):
        s.I = I; s.st = st; s.info = info; s.args = args; s.ats = ats; s.dest = dest; s.target = target; s.dti = dti; s.line = line; s.k = k
        s.name = info.get('p') or info.get('decl')
        s.m = info.get('m')
        s.local = info.get('krate') == 'hush'
    def finish(s, r):
        """r: list of (state, value) results, or 'entered' when a frame was pushed"""
        if r == 'entered': return None
        if isinstance(r, tuple) and r and r[0] == 'states': return r[1]
        out = []
        for st, v in r:
            if st.end:
                out.append(st); continue
            if s.k is not None:
                x = s.k(s.I, st, v)
                if x is None: out.append(st)
                else: out.extend(x)
                continue
            if v is None: st.end = st.end or 'diverge'; out.append(st); continue
            if s.dest is None: out.append(st); continue
            s.I.ret_to(st, s.dest, s.target, v)
            out.append(st)
        if len(out) == 1 and out[0] is s.st: return None
        if not out:
            s.st.end = s.st.end or 'diverge'
            return None if s.st.end else []
        return out

from models import MODELS, is_pure
