"""Scanning and parsing make progress."""
from lib import *
from gram import Gram
import p25
from lexer import *

TECHNIQUE = 'progress analysis of the scanner and parser by abstract interpretation of their MIR: effect summaries of the parsing functions (fixpoint), loop rounds and recursion cycles without progress'
RULE = ('Scanner: from every reachable state, for every byte and at the end of input, the states which one step reaches without moving on make up no cycle. Parser: for every function that works on the parser, its outcomes '
        '(has it read a token, what kind of result with which recovery strategy, is the current token still in place, which kinds can that token have) are computed as a least fixpoint over all paths, also those after a reported error. '
        'No loop may go through two rounds in a row without reading a token or taking an element of a finite collection, and no chain of calls may come back to a function in the same situation without a token having been read.')
ASSUMPTIONS = ['the source is finite, and after its end the scanner yields no more tokens', 'iterators of the standard library over collections are finite', 'a rewind of the scanner to the start of an argument part ends in the state P25 requires']

class Progress(Gram):
    """the functions of the parser, with all paths (errors reported and recovered from) and summaries of what they do"""
    def __init__(self, P):
        Gram.__init__(self, P, 3)
        self.I = Interp(P, hooks=[self.hook, ident_copy], opaque=self.opaque, max_visits=4, max_depth=40, max_paths=30000)
        self.I.on_block = self.block
        self.heads = {}; self.met = set(); self.fnval = {}; self.cval = {}
        self.inst = {}          # key -> number
        self.what = []          # (fid, abstract arguments, state of the current token)
        self.out = []           # number -> {(progress, result, field): kinds of the current token}
        self.callers = []       # number -> set of numbers
        self.edges = {}         # (caller, callee) -> line, for calls before anything has been read
        self.stale = {}         # (function, line) -> text
        self.todo = []
        self.kinds = self.kinds_()
        self.paths = 0
    def kinds_(self):
        out = ['eof']
        for v in self.P.types[self.kind_ti]['v']:
            sub = self.P.types[v['f'][0][1]] if len(v['f']) == 1 else None
            if sub and sub['k'] == 'enum' and sub.get('local') and v['n'] in ('Keyword', 'Operator', 'CmdOperator'): out += [(v['n'], w['n']) for w in sub['v']]
            else: out.append(v['n'])
        return out
    # ---- loops
    def head(self, f):
        """targets of back edges"""
        r = self.heads.get(f['id'])
        if r is None:
            r = set(); state = {}
            def succ(b):
                t = f['bb'][b][1]
                out = []
                if t[0] == 'goto': out = [t[1]]
                elif t[0] == 'switch': out = [x[1] for x in t[2]] + [t[3]]
                elif t[0] == 'call': out = [t[4]]
                elif t[0] in ('drop', 'assert'): out = [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)]
                return [x for x in out if isinstance(x, int) and 0 <= x < len(f['bb'])]
            stack = [(0, iter(succ(0)))]; state[0] = 1
            while stack:
                b, it = stack[-1]
                for x in it:
                    if state.get(x) == 1: r.add(x)
                    elif x not in state:
                        state[x] = 1; stack.append((x, iter(succ(x)))); break
                else:
                    state[b] = 2; stack.pop()
            self.heads[f['id']] = r
        return r
    def block(self, st, fr):
        if fr.bb not in self.head(fr.fn): return False
        u = dict(st.user); at = dict(u.get('at', {}))
        k = (fr.uid, fr.bb)
        now = (u.get('c', 0), u.get('it', 0))
        old = at.get(k)
        n = 0 if old is None or old[0] != now else old[1] + 1
        at[k] = (now, n); u['at'] = at; st.user = u
        if n >= 2:
            self.stale[(fr.fn['n'], fr.fn['bb'][fr.bb][2])] = fr.fn
            st.end = 'stale'
            return True
        if n == 0 and old is not None:
            # having got on: what happens from here was followed already if the situation is one met before
            sig = self.signature(st)
            if sig in self.met: st.end = 'met'; return True
            self.met.add(sig)
        return False
    def loops(self, st):
        """which of the loops the path is in have got on since their last round"""
        live = {fr.uid for fr in st.frames}
        now = (st.user.get('c', 0), st.user.get('it', 0))
        return sorted((k[1], v[0] == now, v[1]) for k, v in st.user.get('at', {}).items() if k[0] in live)
    def signature(self, st):
        out = [st.user.get('c', 0) > 0, sorted(map(str, self.allowed(st, st.user['i']))), self.loops(st)]
        for fr in st.frames:
            out.append((fr.fn['id'], fr.bb))
            for i, ti in enumerate(fr.fn['locals']):
                v = st.mem.get((fr.uid, i))
                if v is None or v[0] == 'u': continue
                if v[0] == 'a' and v[1] == self.pty: out.append(self.field_of(st, v[3][self.f_tok])); continue
                if v[0] == 'r':
                    if self.parser_of(st, v): out.append(self.field(st, v)); continue
                    x = self.I.read(st, v[1], v[2])
                    out.append((i, 'r', repr(self.abs(st, x, self.type_of(x))))); continue
                out.append((i, repr(self.abs(st, v, ti))))
        return repr(out)
    # ---- abstraction of arguments and results
    def abs(self, st, v, ti, depth=5):
        t = self.P.types[ti] if ti is not None else None
        if v[0] == 'k': return ('k', v[1], v[2]) if t is not None and t['k'] == 'bool' else ('s', ti)
        if v[0] == 'fn':
            self.fnval[repr(v)] = v
            return ('fn', repr(v))
        if v[0] == 'b': return ('v', v)
        if v[0] == 's' and t is not None and t['k'] in ('fndef', 'closure'):
            e = self.I.expand(st, v)
            if e[0] == 'a' and not e[3]: return ('a', e[1], e[2], ())
        if v[0] == 'a' and isinstance(v[2], int) and depth and v[1] is not None:
            t = self.P.types[v[1]]
            if t['k'] in ('tuple', 'closure') or (t['k'] in ('enum', 'struct') and (not t.get('local') or t['s'].endswith('::Strategy'))) :
                fs = t['v'][v[2]]['f'] if t.get('v') and v[2] < len(t['v']) else None
                xs = []
                for i, x in enumerate(v[3]):
                    fti = fs[i][1] if fs and i < len(fs) else (t['a'][i] if t['k'] == 'tuple' and t.get('a') and i < len(t['a']) else self.type_of(x))
                    xs.append(self.abs(st, x, fti, depth if t['k'] == 'closure' else depth - 1))
                return ('a', v[1], v[2], tuple(xs))
            c = self.const(st, v) if not t['s'].startswith('syntax::ast') else None
            if c is not None:
                d = self.deepkey(st, v); self.cval[repr(d)] = d
                return ('c', repr(d))
            return ('s', v[1])
        return ('s', ti if ti is not None else self.type_of(v))
    def type_of(self, v):
        if v[0] in 'sk' and len(v) > 2: return v[2]
        if v[0] == 'a': return v[1]
        return None
    def has_ref(self, st, v, depth=6):
        """a reference (to the parser, or to something the callee could change) inside"""
        if v[0] == 'r': return True
        if v[0] == 'a' and depth: return any(self.has_ref(st, x, depth - 1) for x in v[3])
        return False
    def conc(self, st, a):
        """a value of an abstract one"""
        if a[0] == 'k': return a
        if a[0] == 'fn': return self.fnval[a[1]]
        if a[0] == 'v': return a[1]
        if a[0] == 'a': return ('a', a[1], a[2], tuple(self.conc(st, x) for x in a[3]))
        if a[0] == 'c': return self.rebuild(st, self.cval[a[1]])
        return self.I.fresh(st, a[1] if a[1] is not None else self.I.unit_ti, 'some')
    # ---- tokens
    def pull(self, st, c):
        """the next token is taken from the scanner"""
        I = self.I
        out = []
        n = st.user['i']
        for s2, vi, v in I.split_variants(st, self.tok(n), self.opt):
            u = dict(s2.user); u['i'] = n + 1
            if vi == 1: u['c'] = u.get('c', 0) + 1
            else: I.assume(s2, I.mk('disc', self.tok(n + 1)[1], ('n', self.opt)), 0)
            s2.user = u
            out.append((s2, self.tok(n + 1) if vi == 1 else ('a', self.opt, 0, ())))
        return out
    def parser_of(self, st, a):
        """is the argument a reference to the parser?"""
        if a[0] != 'r': return False
        v = self.I.read(st, a[1], a[2])
        return v[0] == 'a' and v[1] == self.pty
    def hook(self, I, st, c):
        if 'i' not in st.user: return None
        if c.ats and c.ats[0] is not None:
            base = c.ats[0]; chain = {base}
            while I.types[base]['k'] == 'ref': base = I.types[base]['to']; chain.add(base)
            if chain & self.other and not (c.name or '').endswith('fmt'):
                return [(st, I.unit() if c.dti == I.unit_ti or c.dti is None else I.fresh(st, c.dti, 'reported'))]
            d = c.info.get('decl') or ''
            if I.types[c.ats[0]]['k'] == 'ref' and self.S.is_source(c.ats[0]):
                if d.endswith('Iterator::next'): return self.pull(st, c)
                if c.m == 'peek':
                    out = []
                    for s2, vi, v in I.split_variants(st, self.tok(st.user['i'] + 1), self.opt):
                        if vi == 0: out.append((s2, ('a', c.dti, 0, ())))
                        else: out.append((s2, ('a', c.dti, 1, (('r', I.alloc(s2, v[3][0]), ()),))))
                    return out
            elif d.endswith(('Iterator::next', 'DoubleEndedIterator::next_back')) and I.types[base]['s'].startswith(('std::vec::', 'std::slice::', 'std::collections::', 'std::array::', 'std::str::', 'std::option::')):
                u = dict(st.user); u['it'] = u.get('it', 0) + 1; st.user = u
                return None
        fid = c.info.get('id')
        if fid is None: return None
        g = self.P.fns[fid]
        if g.get('dk') == 'Closure': return None
        pa = [i for i, a in enumerate(c.args) if self.parser_of(st, a)]
        if len(pa) != 1 or g['n'].startswith('syntax::parser::error'): return None
        if self.stepper(g): return None
        for i, a in enumerate(c.args):
            if i != pa[0] and self.has_ref(st, a): return None
        p = c.args[pa[0]]
        field = self.field(st, p)
        if field is None: return None
        key = (fid, field) + tuple('parser' if i == pa[0] else self.abs(st, a, c.ats[i]) for i, a in enumerate(c.args))
        return self.call(st, c, key, p)
    def stepper(self, g):
        """straight-line helpers are simply followed"""
        return not any(b[1][0] in ('switch',) for b in g['bb']) and self.S.stepper(g)
    def field(self, st, p):
        """'in place' | 'none' | None (something else)"""
        return self.field_of(st, self.I.read(st, p[1], p[2] + (('f', self.f_tok, self.opt),)))
    def field_of(self, st, v):
        n = st.user['i']
        if self.is_tok(st, v, n):
            return 'in place'
        if v[0] == 'a' and v[2] == 0: return 'none'
        return None
    def number(self, key):
        k = self.inst.get(key)
        if k is None:
            k = self.inst[key] = len(self.what)
            self.what.append(key); self.out.append({}); self.callers.append(set())
            self.todo.append(k)
        return k
    def call(self, st, c, key, p):
        I = self.I
        k = self.number(key)
        me = self.current
        self.callers[k].add(me)
        if not st.user.get('c', 0): self.edges.setdefault((me, k), c.line)
        outs = []
        n = st.user['i']
        for (prog, ret, field), kinds in sorted(self.out[k].items(), key=repr):
            s2 = st.copy()
            u = dict(s2.user)
            if prog:
                u['i'] = n + 100; u['c'] = u.get('c', 0) + 1
                s2.user = u
            if not self.restrict(s2, u['i'], kinds): continue
            I.write(s2, p[1], p[2] + (('f', self.f_tok, self.opt),), self.tok(u['i']) if field == 'in place' else ('a', self.opt, 0, ()))
            sig = self.signature(s2) + repr((k, ret))
            if sig in self.met: continue
            self.met.add(sig)
            outs.append((s2, self.conc(s2, ret)))
        if not outs: st.end = 'none'; return [(st, None)]
        return outs
    # ---- kinds of tokens
    def kterm(self, n):
        I = self.I
        return I.mk('f', I.mk('f', I.mk('d', self.tok(n)[1], ('n', 1)), ('n', 0)), ('n', self.i_kind))
    def restrict(self, st, n, kinds):
        """assume that the token has one of the kinds"""
        I = self.I
        tag = I.mk('disc', self.tok(n)[1], ('n', self.opt))
        if 'eof' not in kinds:
            if not I.assume(st, tag, 1): return False
        elif kinds == {'eof'}:
            return I.assume(st, tag, 0)
        tops = {x if isinstance(x, str) else x[0] for x in kinds}
        kd = I.mk('disc', self.kterm(n), ('n', self.kind_ti))
        known = st.facts.get(tag)
        for i, v in enumerate(I.types[self.kind_ti]['v']):
            if v['n'] not in tops:
                if not I.exclude(st, kd, int(v['d'])):
                    if 'eof' in kinds and known != 1: return I.assume(st, tag, 0)
                    return False
            elif any(isinstance(x, tuple) and x[0] == v['n'] for x in kinds):
                sub = v['f'][0][1]
                sd = I.mk('disc', I.mk('f', I.mk('d', self.kterm(n), ('n', i)), ('n', 0)), ('n', sub))
                for w in I.types[sub]['v']:
                    if (v['n'], w['n']) not in kinds:
                        if not I.exclude(st, sd, int(w['d'])): return st.facts.get(kd) != int(v['d']) and I.exclude(st, kd, int(v['d']))
        return True
    def allowed(self, st, n):
        I = self.I
        def may(t, ti, name):
            tm = I.mk('disc', t, ('n', ti))
            d = [int(v['d']) for v in I.types[ti]['v'] if v['n'] == name][0]
            f = st.facts.get(tm)
            return f == d if f is not None else d not in st.nots.get(tm, ())
        out = set()
        tok = self.tok(n)[1]
        if may(tok, self.opt, 'None'): out.add('eof')
        if may(tok, self.opt, 'Some'):
            for i, v in enumerate(I.types[self.kind_ti]['v']):
                if not may(self.kterm(n), self.kind_ti, v['n']): continue
                subs = [x for x in self.kinds if isinstance(x, tuple) and x[0] == v['n']]
                if not subs: out.add(v['n'])
                for x in subs:
                    if may(I.mk('f', I.mk('d', self.kterm(n), ('n', i)), ('n', 0)), v['f'][0][1], x[1]): out.add(x)
        return frozenset(out)
    # ---- fixpoint
    def explore(self, k):
        I = self.I
        key = self.what[k]
        g = self.P.fns[key[0]]
        box = {}
        def setup(st):
            uid = st.frames[-1].uid
            fs = [((self.tok(0) if key[1] == 'in place' else ('a', self.opt, 0, ())) if i == self.f_tok else I.sym(t, 'parser', n)) for i, (n, t) in enumerate(self.fields)]
            v = ('a', self.pty, 0, tuple(fs))
            st.user = {'i': 0, 'c': 0}
            for i, a in enumerate(key[2:]):
                if a == 'parser':
                    box['p'] = I.alloc(st, v)
                    st.mem[(uid, i + 1)] = ('r', box['p'], ())
                elif a == 'parser-value': st.mem[(uid, i + 1)] = v
                else: st.mem[(uid, i + 1)] = self.conc(st, a)
        self.current = k; self.met = set()
        new = dict(self.out[k])
        for st in I.run(g, [('u',)] * g['args'], setup):
            self.paths += 1
            if st.end != 'return' or 'p' not in box: continue
            field = self.field(st, ('r', box['p'], ()))
            if field is None: field = 'none'
            prog = st.user.get('c', 0) > 0
            o = (prog, self.abs(st, st.ret, g['locals'][0]), field)
            kinds = frozenset(self.kinds) if prog else self.allowed(st, st.user['i'])
            new[o] = new.get(o, frozenset()) | kinds
        if new != self.out[k]:
            self.out[k] = new
            for q in self.callers[k]:
                if q not in self.todo: self.todo.append(q)
    def fix(self, roots):
        for key in roots: self.number(key)
        n = 0
        while self.todo:
            k = max(self.todo); self.todo.remove(k)      # inner functions first
            n += 1
            if n > 3000: raise RuntimeError('no fixpoint')
            self.explore(k)
        self.explored = n

def check(P, R, tier):
    parser(P, R)
    scanner(P, R)

def parser(P, R):
    G = Progress(P)
    roots = []
    for f in P.fns:
        if not f.get('local') or f.get('dk') == 'Closure' or f['args'] != 1: continue
        ti = f['locals'][1]
        if ti == G.pty and f['n'].startswith('syntax::parser'): roots.append((f['id'], 'in place', 'parser-value'))
    if not roots: R.bad('anchor:parser', 'no function runs the parser'); return
    G.fix(roots)
    R.count('situations', len(G.what)); R.count('functions', len({w[0] for w in G.what})); R.count('outcomes', sum(map(len, G.out))); R.count('paths', G.paths)
    R.count('loops', sum(len(G.head(P.fns[w])) for w in {w[0] for w in G.what}))
    for (n, line), f in sorted(G.stale.items()):
        R.bad('loop:' + n, 'the loop of %s (%s:%s) can go on without reading a token' % (n, f['file'], line))
    # recursion
    nx = {}
    for (a, b), line in G.edges.items(): nx.setdefault(a, []).append((b, line))
    done = set()
    for a in sorted(nx):
        work, seen = [(b, line) for b, line in nx[a]], set()
        while work:
            b, line = work.pop()
            if b == a:
                f = P.fns[G.what[a][0]]
                if f['n'] not in done:
                    done.add(f['n'])
                    R.bad('recursion:' + f['n'], '%s (%s) can be called again from itself without a token having been read' % (f['n'], f['file']))
                break
            if b in seen: continue
            seen.add(b); work.extend(nx.get(b, ()))
    R.floor('functions', 10); R.floor('situations', 15); R.floor('loops', 2)

# ---- the scanner ----------------------------------------------------------------------------------------------
def scanner(P, R):
    M = Machine(P)
    I = M.I
    init = p25.initial(P, M)
    if init is None: R.bad('anchor:scanner', 'the initial state of the scanner was not found'); return
    def widen(v, ti, path):
        t = P.types[ti] if ti is not None else None
        if v[0] == 'a' and isinstance(v[2], int) and v[1] is not None and P.types[v[1]]['k'] in ('enum', 'struct', 'tuple'):
            tt = P.types[v[1]]
            if P.types[v[1]].get('p', '').startswith('std::vec'): return ('s', I.mk('any', path), v[1])
            fs = tt['v'][v[2]]['f'] if tt.get('v') else [(i, x) for i, x in enumerate(tt.get('a') or ())]
            if len(fs) == len(v[3]): return ('a', v[1], v[2], tuple(widen(x, f[1], '%s.%s' % (path, f[0])) for f, x in zip(fs, v[3])))
        if v[0] == 'k' and t is not None and t['k'] == 'bool': return v
        if ti is None: ti = v[2] if v[0] in 'sk' else v[1]
        return ('s', I.mk('any', path), ti)
    def key(v):
        if v[0] == 'a': return (v[1], v[2]) + tuple(key(x) for x in v[3])
        return v
    s0 = widen(init, M.state, 's')
    todo, seen, stay, names = [s0], {key(s0)}, {}, {}
    steps = 0
    while todo:
        s = todo.pop()
        names[key(s)] = p25.text(p25.canon_state(M, s))[:60]
        for b in [None] + list(range(256)):
            steps += 1
            for o in M.step(s, b):
                if o[0] not in ('return', 'suspend', 'cut'): continue
                cv = p25.Conv(M, o[5], b)
                if o[0] == 'cut':
                    R.bad('scanner:%s' % names[key(s)], 'the scanner in state %s, at %s, goes on and on in one step without reaching another byte' % (names[key(s)], p25.bname(b)))
                    continue
                w = widen(o[1], M.state, 's')
                off = cv.val(o[2])
                ends = o[0] == 'return' and p25.is_some(I, o[4]) is False
                if off == p25.OFF and not ends: stay.setdefault((key(s), b), set()).add(key(w))
                if key(w) not in seen:
                    if len(seen) > 400: R.bad('states', 'the states of the scanner are not finitely many'); return
                    seen.add(key(w)); todo.append(w)
    R.count('scanner_states', len(seen)); R.count('scanner_steps', steps)
    bad = set()
    for (k, b), nx in stay.items():
        s2, work = set(), list(nx)
        while work:
            x = work.pop()
            if x == k:
                if k not in bad: R.bad('scanner:%s' % names[k], 'the scanner in state %s, at %s, never gets on' % (names[k], p25.bname(b)))
                bad.add(k); break
            if x in s2: continue
            s2.add(x); work.extend(stay.get((x, b), ()))
    R.floor('scanner_states', 15); R.floor('scanner_steps', 4000)
