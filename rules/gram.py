"""The parser as a grammar: every parsing function explored on its own, with the functions it calls as nonterminals."""
from lib import *
from syn import *

CATS = {'syntax::ast::Expr': 'Expr', 'syntax::ast::Block': 'Block', 'syntax::ast::Statement': 'Statement', 'syntax::ast::command::CommandBlock': 'CommandBlock',
        'syntax::ast::command::Command': 'Command', 'syntax::ast::command::BasicCommand': 'BasicCommand', 'syntax::ast::command::Argument': 'Argument',
        'syntax::ast::command::Redirection': 'Redirection'}

class Path:
    pass

class Gram:
    def __init__(self, P, rounds=3, inline=()):
        self.P = P
        self.S = Syn(P)
        self.inline = set(inline)
        self.opt = self.S.opt()
        self.rounds = rounds
        self.insts = {}
        self.cache = {}; self.trials = {}
        self.limits = {'BasicCommand': 4 if rounds <= 2 else 5}     # things read on one path
        self.order = []
        self.I = Interp(P, hooks=[self.hook, ident_copy], opaque=self.opaque, max_visits=rounds + 1, max_depth=60, max_paths=60000)
        self.parsers = [i for i in self.S.parsers if any(self.P.types[f[1]]['s'] == self.P.types[self.opt]['s'] for f in P.types[i]['v'][0]['f'])]
        # the instance in use: the one some function of the dump receives by reference
        used = {}
        for f in P.fns.values() if isinstance(P.fns, dict) else P.fns:
            for i in range(1, f['args'] + 1):
                t = P.types[f['locals'][i]]
                if t and t.get('to') in self.parsers: used[t['to']] = used.get(t['to'], 0) + 1
        self.pty = need(max(used, key=used.get) if used else None, 'parser instance')
        fs = P.types[self.pty]['v'][0]['f']
        self.f_tok = need([i for i, f in enumerate(fs) if f[1] == self.opt], 'current token')[0]
        self.f_cur = need([i for i, f in enumerate(fs) if self.S.is_source(f[1])], 'token source')[0]
        self.other = {f[1] for i, f in enumerate(fs) if i not in (self.f_tok, self.f_cur)}
        self.fields = fs
        tf = P.types[self.S.token_ti]['v'][0]['f']
        self.i_kind = need([i for i, f in enumerate(tf) if P.types[f[1]]['s'].endswith('TokenKind')], 'kind of a token')[0]
        self.kind_ti = tf[self.i_kind][1]
        kv = {v['n']: v['f'] for v in P.types[self.kind_ti]['v']}
        self.lit_ti = kv['Literal'][0][1]; self.cmdop_ti = kv['CmdOperator'][0][1]
        at = need(ty(P, 'syntax::ast::command::Argument'), 'Argument')
        self.i_argpos = [i for i, f in enumerate(P.types[at]['v'][0]['f']) if P.types[f[1]]['s'].endswith('SourcePos')][0]
        self.i_pos = need([i for i, f in enumerate(tf) if P.types[f[1]]['s'].endswith('SourcePos')], 'position of a token')[0]

    def opaque(self, g):
        n = g['n']
        if self.converter(g): return not self.explicit
        return '::fmt' in n or n.startswith(('syntax::parser::error', '<syntax::parser::error'))

    def converter(self, g):
        """builds an argument from the parts of its token (decided apart, on explicit parts)"""
        return CATS.get(self.P.types[g['locals'][0]]['s']) == 'Argument' and g.get('dk') != 'Closure' and not any(self.P.types[t].get('to') in self.S.parsers for t in g['locals'][1:g['args'] + 1])

    # ---- tokens -------------------------------------------------------------
    override = {}       # tokens given explicitly
    explicit = False
    def tok(self, n):
        if n in self.override: return self.override[n]
        return ('s', self.I.mk('tok', ('n', n)), self.opt)
    def cur(self, st): return st.user['i']
    def field_token(self, st):
        return self.I.read(st, st.user['p'], (('f', self.f_tok, self.opt),))
    def intact(self, st):
        """the current token is where the parser keeps it"""
        v = self.field_token(st)
        return self.is_tok(st, v, self.cur(st))
    def is_tok(self, st, v, n):
        t = self.tok(n)[1]
        if v[0] == 's': return v[1] == t
        if v[0] == 'a':
            if v[2] == 0: return st.facts.get(self.I.mk('disc', t, ('n', self.opt))) == 0
            return self.same(st, v[3][0], self.I.mk('f', self.I.mk('d', t, ('n', 1)), ('n', 0)))
        return False
    def same(self, st, v, t):
        """is the value the one of the term, possibly taken apart and put together again?"""
        I = self.I
        if v[0] == 's': return v[1] == t
        if v[0] == 'k':
            return st.facts.get(t) == v[1] or t == I.mk('k', ('n', v[1]))
        if v[0] == 'r': return I.term(st, v) in (t, I.mk('&', t)) or self.same(st, I.read(st, v[1], v[2]), I.mk('*', t)) or self.same(st, I.read(st, v[1], v[2]), t)
        if v[0] == 'a' and isinstance(v[2], int):
            ty_ = I.types[v[1]]
            b = t
            if ty_['k'] == 'enum':
                f = st.facts.get(I.mk('disc', t, ('n', v[1])))
                if f is None or f != int(ty_['v'][v[2]]['d']): return False
                b = I.mk('d', t, ('n', v[2]))
            return all(self.same(st, x, I.mk('f', b, ('n', i))) for i, x in enumerate(v[3]))
        return False

    # ---- nonterminals -------------------------------------------------------
    def cat(self, g):
        """category of what the function parses, and whether it may fail"""
        t = self.P.types[g['locals'][0]]
        c = CATS.get(t['s'])
        if c: return c, False
        if t['k'] == 'enum' and (t.get('p') or '').endswith('result::Result'):
            c = CATS.get(self.P.types[t['v'][0]['f'][0][1]]['s'])
            if c: return c, True
        return None, False
    def const(self, st, v, depth=6):
        """hashable form of a value known completely, or None"""
        if v[0] == 'k': return ('k', v[1])
        if v[0] == 'fn': return ('fn', v[1].get('id'), v[1].get('full'))
        if v[0] == 'b': return v
        if v[0] == 'a' and isinstance(v[2], (int, str)) and depth:
            xs = tuple(self.const(st, x, depth - 1) for x in v[3])
            return None if None in xs else ('a', v[1], v[2], xs)
        if v[0] == 'r' and depth:
            x = self.const(st, self.I.read(st, v[1], v[2]), depth - 1)
            return None if x is None else ('r', x)
        if v[0] == 's' and self.P.types[v[2]]['k'] in ('closure', 'fndef', 'struct', 'tuple'):
            e = self.I.expand(st, v)
            return self.const(st, e, depth - 1) if e[0] == 'a' and not e[3] else None
        return None
    def rebuild(self, st, k):
        if k[0] == 'a': return ('a', k[1], k[2], tuple(self.rebuild(st, x) for x in k[3]))
        if k[0] == 'r': return ('r', self.I.alloc(st, self.rebuild(st, k[1])), ())
        return k
    def nonterminal(self, st, c):
        fid = c.info.get('id')
        if fid is None: return None
        g = self.P.fns[fid]
        if g.get('dk') == 'Closure' or fid in self.inline: return None
        pa = [i for i, a in enumerate(c.args) if a[0] == 'r' and a[1] == st.user['p'] and a[2] == ()]
        if len(pa) != 1: return None
        if self.cat(g)[0] is None: return None
        if self.explicit and self.cat(g)[0] in ('Argument', 'Redirection'): return None
        key = []
        for i, a in enumerate(c.args):
            if i == pa[0]: key.append('parser'); continue
            k = self.const(st, a)
            if k is None: return None
            if a[0] == 'k': k = a
            elif a[0] == 'fn': k = a
            elif a[0] in 'arb': k = a if a[0] == 'b' else self.deepkey(st, a)
            key.append(k)
        return (fid, repr(key)), key
    def deepkey(self, st, v):
        if v[0] == 'a': return ('a', v[1], v[2], tuple(self.deepkey(st, x) for x in v[3]))
        if v[0] == 'r': return ('r', self.deepkey(st, self.I.read(st, v[1], v[2])))
        if v[0] == 's':
            e = self.I.expand(st, v)
            return e
        return v

    def hook(self, I, st, c):
        if 'p' not in st.user: return None
        if c.ats and c.ats[0] is not None:
            t0 = I.types[c.ats[0]]
            base = c.ats[0]; chain = {base}
            while I.types[base]['k'] == 'ref': base = I.types[base]['to']; chain.add(base)
            if chain & self.other and not (c.name or '').endswith('fmt'):
                st.end = 'reported'; return [(st, None)]
            if t0['k'] == 'ref' and self.S.is_source(c.ats[0]):
                d = c.info.get('decl') or ''
                if d.endswith('Iterator::next'):
                    u = dict(st.user); n = u['i']; u['i'] = n + 1; u['n'] = u.get('n', 0) + 1; st.user = u
                    if u['n'] > u['lim']: return [self.ended(st, 'cut')]
                    st.event(('t', n))
                    return [(st, self.tok(n + 1))]
                if c.m == 'peek':
                    out = []
                    for s2, vi, v in I.split_variants(st, self.tok(self.cur(st) + 1), self.opt):
                        if vi == 0: out.append((s2, ('a', c.dti, 0, ())))
                        else: out.append((s2, ('a', c.dti, 1, (('r', I.alloc(s2, v[3][0]), ()),))))
                    return out
        if c.m == 'from' and len(c.args) == 1 and c.dti is not None and I.types[c.dti].get('box') and c.ats[0] is not None and not I.types[c.ats[0]].get('box') and I.types[c.dti]['s'] == 'std::boxed::Box<%s>' % I.types[c.ats[0]]['s']:
            return [(st, ('r', I.alloc(st, c.args[0]), ()))]
        nt = self.nonterminal(st, c)
        if nt:
            key, args = nt
            inst = self.instance(key, args)
            g = self.P.fns[key[0]]
            cat, fallible = self.cat(g)
            out = []
            if not self.intact(st):
                st.event(('lost', self.cur(st), c.line))
            if fallible and self.trial(inst):
                s2 = st.copy()
                ok, err = self.firsts(inst)
                t0 = self.tok(self.cur(st))[1]
                tag = I.mk('disc', t0, ('n', self.opt)); kd = I.mk('disc', I.mk('f', I.mk('f', I.mk('d', t0, ('n', 1)), ('n', 0)), ('n', self.i_kind)), ('n', self.kind_ti))
                num = {v['n']: int(v['d']) for v in I.types[self.kind_ti]['v']}
                live = True
                if s2.facts.get(tag) == 1:
                    for x in ok - err - {'eof'}: live = live and I.exclude(s2, kd, num[x])
                if live: out.append((s2, ('a', c.dti, 1, (I.sym(I.types[c.dti]['v'][1]['f'][0][1], 'failed', ('n', len(st.events()))),))))
                if 'eof' not in ok:
                    live = I.assume(st, tag, 1)
                    if live and len(ok) == 1: live = I.assume(st, kd, num[list(ok)[0]])
                    if not live: return out
            n0 = self.cur(st)
            if cat not in ('Block', 'Command', 'BasicCommand') and st.facts.get(I.mk('disc', self.tok(n0)[1], ('n', self.opt))) == 0:
                return out + [self.ended(st, 'eof')]
            rti = I.types[c.dti]['v'][0]['f'][0][1] if fallible else c.dti
            r = I.mk('nt', ('n', inst), ('n', n0))
            st.event(('nt', r, inst, cat, n0, c.line))
            u = dict(st.user); u['i'] = n0 + 100; u['n'] = u.get('n', 0) + 1; st.user = u
            if u['n'] > u['lim']: return out + [self.ended(st, 'cut')]
            I.write(st, st.user['p'], (('f', self.f_tok, self.opt),), self.tok(n0 + 100))
            rt = I.types[rti]
            if rt['k'] == 'enum':
                for v in rt['v']:
                    if v['n'] == 'IllFormed': I.exclude(st, I.mk('disc', r, ('n', rti)), int(v['d']))
            rv = ('s', r, rti)
            out.append((st, ('a', c.dti, 0, (rv,)) if fallible else rv))
            return out
        # a helper calling itself: once more, then no further
        fid = c.info.get('id')
        if fid is not None and any(a[0] == 'r' and a[1] == st.user['p'] for a in c.args):
            k = sum(1 for f in st.frames if f.fn['id'] == fid)
            if k:
                if k > 1: st.end = 'cut'; return [(st, None)]
                return ('states', [st]) if I.enter(st, self.P.fns[fid], c.args, c.dest, c.target, c.k) is None else None
        return None

    def ended(self, st, how):
        st.end = how
        return st, None

    def instance(self, key, args):
        if key not in self.insts:
            self.insts[key] = len(self.order)
            self.order.append((key[0], args, key))
        return self.insts[key]

    def trial(self, k):
        """does the nonterminal leave the tokens as they were whenever it fails, without a report?"""
        r = self.trials.get(k)
        if r is None:
            self.trials[k] = False
            n = 0; ok = True
            for st in self.explore(k):
                if st.end == 'reported': ok = False
                if st.end != 'return' or not self.failed(st): continue
                n += 1
                if any(e[0] in ('t', 'nt', 'lost') for e in st.events()) or not self.intact(st): ok = False
            r = self.trials[k] = ok and n > 0
        return r
    def firsts(self, k):
        """variants of tokens with which the (trial) nonterminal succeeds, and fails"""
        r = self.trials.get(('first', k))
        if r is None:
            I = self.I
            t0 = self.tok(0)[1]
            ok, err = set(), set()
            for st in self.explore(k):
                if st.end != 'return': continue
                to = err if self.failed(st) else ok
                f = st.facts.get(I.mk('disc', t0, ('n', self.opt)))
                if f != 1: to.add('eof')
                if f == 0: continue
                kd = I.mk('disc', I.mk('f', I.mk('f', I.mk('d', t0, ('n', 1)), ('n', 0)), ('n', self.i_kind)), ('n', self.kind_ti))
                for v in I.types[self.kind_ti]['v']:
                    d = int(v['d']); g = st.facts.get(kd)
                    if (g == d) if g is not None else d not in st.nots.get(kd, ()): to.add(v['n'])
            r = self.trials[('first', k)] = (ok, err)
        return r
    def failed(self, st): return st.ret[0] == 'a' and vname(self.I, st.ret) == 'Err'

    def explore(self, k):
        """all paths of an instance: [state]"""
        if k in self.cache: return self.cache[k]
        self.cache[k] = r = self.explore_(k)
        return r
    def explore_(self, k):
        fid, args, _ = self.order[k]
        g = self.P.fns[fid]
        I = self.I
        def setup(st):
            fs = []
            for i, (n, t) in enumerate(self.fields):
                fs.append(self.tok(0) if i == self.f_tok else I.sym(t, 'parser', n))
            p = I.alloc(st, ('a', self.pty, 0, tuple(fs)))
            st.user = {'p': p, 'i': 0, 'lim': self.limits.get(self.cat(g)[0], 1000)}
            uid = st.frames[-1].uid
            for i, a in enumerate(args):
                if a == 'parser': st.mem[(uid, i + 1)] = ('r', p, ())
                elif a == 'parser-value': raise NotImplementedError
                else: st.mem[(uid, i + 1)] = self.rebuild(st, a)
        r = self.rounds
        before = I.max_visits
        try:
            while True:
                I.max_visits = r + 1
                try: return I.run(g, [('u',)] * g['args'], setup)
                except RuntimeError:
                    if r <= 2: raise
                    r -= 1
        finally: I.max_visits = before

    def roots(self):
        """functions whose only argument is the parser"""
        out = []
        for f in self.P.fns.values() if isinstance(self.P.fns, dict) else self.P.fns:
            if f.get('dk') == 'Closure' or f['args'] != 1: continue
            t = self.P.types[f['locals'][1]]
            if t and t.get('to') == self.pty and self.cat(f)[0]: out.append(f)
        return out

def depends(I, t, sub, memo=None):
    """does the term hold the given one in any way?"""
    memo = {} if memo is None else memo
    if t == sub: return True
    if t in memo: return memo[t]
    memo[t] = False
    for x in I.T.t[t][1:]:
        if isinstance(x, bool): continue
        if isinstance(x, int): r = depends(I, x, sub, memo)
        elif isinstance(x, tuple) and not (len(x) == 2 and x[0] == 'n'): r = any(isinstance(y, int) and depends(I, y, sub, memo) for y in x)
        else: r = False
        if r: memo[t] = True; return True
    return False

# ---- what a path has read, what it has built -------------------------------------------------------------------
class Reader:
    """the tokens and nonterminals one successful path consumed, and the matching of a tree against them"""
    def __init__(self, G, st, k):
        self.G = G; self.st = st; self.I = G.I; self.k = k
        self.E = [e for e in st.events() if e[0] in ('t', 'nt', 'lost')]
        r = st.ret
        self.cat, fallible = G.cat(G.P.fns[G.order[k][0]])
        self.ret = r[3][0] if fallible and r[0] == 'a' else r
        self.memo = {}
    # tokens
    def token(self, n):
        I = self.I
        return I.mk('f', I.mk('d', I.mk('tok', ('n', n)), ('n', 1)), ('n', 0))
    def kind(self, n): return self.I.mk('f', self.token(n), ('n', self.G.i_kind))
    def pos(self, n): return self.I.mk('f', self.token(n), ('n', self.G.i_pos))
    def disc(self, t, ti):
        """name of the variant the path knows the term to be, and the term of its payload"""
        f = self.st.facts.get(self.I.mk('disc', t, ('n', ti)))
        if f is None: return None, None
        for i, v in enumerate(self.I.types[ti]['v']):
            if int(v['d']) == f: return v['n'], self.I.mk('d', t, ('n', i))
        return None, None
    def payload(self, n, i=0):
        d = self.disc(self.kind(n), self.G.kind_ti)[1]
        return self.I.mk('f', d, ('n', i))
    def is_kind(self, n, want):
        """want: variant name, or (variant, name of its inner variant)"""
        if self.st.facts.get(self.I.mk('disc', self.I.mk('tok', ('n', n)), ('n', self.G.opt))) != 1: return False
        v, d = self.disc(self.kind(n), self.G.kind_ti)
        if isinstance(want, str): return v == want
        if v != want[0]: return False
        i = [x['n'] for x in self.I.types[self.G.kind_ti]['v']].index(v)
        ti = self.I.types[self.G.kind_ti]['v'][i]['f'][0][1]
        return self.disc(self.I.mk('f', d, ('n', 0)), ti)[0] == want[1]
    def t(self, i, want):
        """the i-th thing read is a token of the kind: its number, or None"""
        if i < len(self.E) and self.E[i][0] == 't' and self.is_kind(self.E[i][1], want): return self.E[i][1]
        return None
    def same(self, v, t): return self.G.same(self.st, v, t)
    def v(self, x):
        """through boxes"""
        I = self.I
        for _ in range(6):
            if x[0] == 'r': x = I.read(self.st, x[1], x[2])
            elif x[0] == 'a' and x[1] is not None and isinstance(x[2], int) and I.is_ptr_wrapper(x[1]) and x[3]: x = x[3][0]
            else: break
        return x
    def items(self, x):
        x = self.v(x)
        if x[0] == 'a' and x[2] in ('vec', 'array', 'slice'):
            if x[2] == 'slice': return self.items(x[3][0])
            return list(x[3])
        if x[0] == 'a' and not x[3]: return []
        if x[0] == 'b' and not x[1]: return []
        return None
    def fields(self, x):
        t = self.I.types[x[1]]
        return {f[0]: y for f, y in zip(t['v'][x[2]]['f'], x[3])}
    def nt(self, i, x, cats):
        """the i-th thing read is the nonterminal whose result the value is"""
        if i >= len(self.E) or self.E[i][0] != 'nt' or self.E[i][3] not in cats: return False
        r = self.E[i][1]
        if x[0] == 's':
            return x[1] in (r, self.I.mk('*', r))
        return self.same(x, r)
    def at(self, i, pos, n):
        ok = self.same(pos, self.pos(n))
        if not ok: self.misplaced.add(n)
        return ok
    def seplist(self, i, xs, item, sep):
        """items with separators between them and an optional trailing one: set of ends"""
        if not xs: return {i}
        ends = {i}
        for q, x in enumerate(xs):
            nxt = set()
            for j in ends:
                for e in item(x, j):
                    if q + 1 < len(xs):
                        if self.t(e, sep) is not None: nxt.add(e + 1)
                    else:
                        nxt.add(e)
                        if self.t(e, sep) is not None: nxt.add(e + 1)
            ends = nxt
        return ends
    def ident(self, i, x):
        """(symbol, position) read from an identifier token"""
        x = self.v(x)
        if x[0] == 's': x = self.I.expand(self.st, x)
        n = self.t(i, 'Identifier')
        if n is None or x[0] != 'a' or len(x[3]) != 2: return set()
        return {i + 1} if self.same(x[3][0], self.payload(n)) and self.same(x[3][1], self.pos(n)) else set()

LEVELS = [('Or',), ('And',), ('Equals', 'NotEquals'), ('Lower', 'LowerEquals', 'Greater', 'GreaterEquals'), ('Concat',), ('Plus', 'Minus'), ('Times', 'Div', 'Mod')]
PREC = {o: i + 1 for i, l in enumerate(LEVELS) for o in l}
PREFIX, POSTFIX, PRIMARY = 8, 9, 10

class Tree(Reader):
    """m_<category>(value, i): the ways in which the value is what was read from the i-th thing on, as (end, level, constraints);
    a level is that of the operator at the root (int) or a nonterminal ('inst', k); a constraint is (level of an operand, least level, why)"""
    misplaced = None
    def __init__(self, *a):
        Reader.__init__(self, *a)
        self.misplaced = set()
    def match(self):
        """the whole tree against everything read: list of (level, constraints)"""
        m = getattr(self, 'm_' + self.cat)
        return [(lev, cons) for e, lev, cons in m(self.v(self.ret), 0) if e == len(self.E)]
    def ends(self, rs): return {e for e, _, _ in rs}
    def seq(self, i, steps):
        """steps: functions i -> [(end, level, cons)]; list of (end, [levels], cons)"""
        cur = [(i, [], ())]
        for s in steps:
            nxt = []
            for j, ls, cs in cur:
                for e, l, c in s(j): nxt.append((e, ls + [l], cs + c))
            cur = nxt
        return cur
    def T(self, want, pos=None):
        def f(i):
            n = self.t(i, want)
            if n is None or (pos is not None and not self.at(i, pos, n)): return []
            return [(i + 1, None, ())]
        return f
    def X(self, x): return lambda i: self.m_Expr(x, i)
    def B(self, x): return lambda i: self.m_Block(x, i)
    def L(self, x, item, sep):
        xs = self.items(x)
        def f(i):
            if xs is None: return []
            if not xs: return [(i, None, ())]
            ends = [(i, ())]
            for q, y in enumerate(xs):
                nxt = []
                for j, cs in ends:
                    for e, _, c in item(y, j):
                        if q + 1 < len(xs):
                            if self.t(e, sep) is not None: nxt.append((e + 1, cs + c))
                        else:
                            nxt.append((e, cs + c))
                            if self.t(e, sep) is not None: nxt.append((e + 1, cs + c))
                ends = nxt
            return [(e, None, c) for e, c in ends]
        return f
    def R(self, xs, item):
        """a plain repetition"""
        def f(i):
            if xs is None: return []
            return [(e, None, c) for e, _, c in self.seq(i, [(lambda j, y=y: item(y, j)) for y in xs])]
        return f
    def out(self, rs, lev, cons=lambda ls: ()):
        return [(e, lev, cs + cons(ls)) for e, ls, cs in rs]

    def m_Expr(self, x, i):
        x = self.v(x)
        if self.nt(i, x, ('Expr',)): return [(i + 1, ('inst', self.E[i][2]), ())]
        r = []
        if self.t(i, 'OpenParens') is not None:
            for e, l, c in self.m_Expr(x, i + 1):
                if self.t(e, 'CloseParens') is not None: r.append((e + 1, PRIMARY, c))
        if x[0] != 'a': return r
        n = vname(self.I, x); f = self.fields(x); pos = f.get('pos')
        if n == 'Self_': r += self.out(self.seq(i, [self.T(('Keyword', 'Self_'), pos)]), PRIMARY)
        elif n == 'Identifier':
            k = self.t(i, 'Identifier')
            if k is not None and self.at(i, pos, k) and self.same(f['identifier'], self.payload(k)): r.append((i + 1, PRIMARY, ()))
        elif n == 'Literal': r += self.m_literal(f['literal'], pos, i)
        elif n == 'UnaryOp':
            op = self.op(f['op'])
            if op == 'Try': r += self.out(self.seq(i, [self.X(f['operand']), self.T(('Operator', 'Try'), pos)]), POSTFIX, lambda ls: ((ls[0], POSTFIX, 'the operand of ?'),))
            elif op is not None: r += self.out(self.seq(i, [self.T(('Operator', op), pos), self.X(f['operand'])]), PREFIX, lambda ls: ((ls[1], PREFIX, 'the operand of prefix %s' % op),))
        elif n == 'BinaryOp':
            op = self.op(f['op'])
            p = PREC.get(op)
            if p: r += self.out(self.seq(i, [self.X(f['left']), self.T(('Operator', op), pos), self.X(f['right'])]), p,
                                lambda ls: ((ls[0], p, 'the left operand of %s' % op), (ls[2], p + 1, 'the right operand of %s' % op)))
        elif n == 'If': r += self.out(self.seq(i, [self.T(('Keyword', 'If'), pos), lambda j: self.condition(f, j), self.T(('Keyword', 'End'))]), PRIMARY)
        elif n == 'Access':
            po = lambda ls: ((ls[0], POSTFIX, 'the object of an access'),)
            r += self.out(self.seq(i, [self.X(f['object']), self.T('OpenBracket', pos), self.X(f['field']), self.T('CloseBracket')]), POSTFIX, po)
            r += self.out(self.seq(i, [self.X(f['object']), self.T(('Operator', 'Dot'), pos), lambda j: self.field(f['field'], j)]), POSTFIX, po)
        elif n == 'Call':
            r += self.out(self.seq(i, [self.X(f['function']), self.T('OpenParens', pos), self.L(f['args'], self.m_Expr, 'Comma'), self.T('CloseParens')]), POSTFIX, lambda ls: ((ls[0], POSTFIX, 'the called function'),))
        elif n == 'CommandBlock':
            if i < len(self.E):
                k = self.E[i][1] if self.E[i][0] == 't' else self.E[i][4] if self.E[i][0] == 'nt' else None
                if k is not None and self.at(i, pos, k): r += self.out(self.seq(i, [lambda j: self.m_CommandBlock(f['block'], j)]), PRIMARY)
        return r
    def op(self, v):
        v = self.v(v)
        if v[0] == 'a': return vname(self.I, v)
        if v[0] == 's':
            s = vnames(self.I, self.st, v, v[2])
            return list(s)[0] if len(s) == 1 else None
        return None
    def field(self, x, j):
        x = self.v(x)
        if x[0] != 'a' or vname(self.I, x) != 'Literal': return []
        f = self.fields(x); l = self.v(f['literal'])
        k = self.t(j, 'Identifier')
        if k is None or vname(self.I, l) != 'Identifier' or not self.at(j, f['pos'], k) or not self.same(l[3][0], self.payload(k)): return []
        return [(j + 1, None, ())]
    def condition(self, f, i):
        """condition THEN block [ELSE block | ELSEIF ...], of an if or elseif"""
        base = self.seq(i, [self.X(f['condition']), self.T(('Keyword', 'Then')), self.B(f['then'])])
        r = []
        o = self.v(f['otherwise'])
        stmts = self.items(o[3][0]) if o[0] == 'a' and vname(self.I, o) == 'Block' else None
        for e, _, c in base:
            if stmts == []: r.append((e, None, c))
            for e2, _, c2 in self.seq(e, [self.T(('Keyword', 'Else')), self.B(o)]): r.append((e2, None, c + c2))
            if stmts and len(stmts) == 1:
                s = self.v(stmts[0])
                if s[0] == 'a' and vname(self.I, s) == 'Expr':
                    y = self.v(s[3][0])
                    if y[0] == 'a' and vname(self.I, y) == 'If':
                        g = self.fields(y)
                        for e2, _, c2 in self.seq(e, [self.T(('Keyword', 'ElseIf'), g['pos']), lambda j: self.condition(g, j)]): r.append((e2, None, c + c2))
        return r
    def m_literal(self, l, pos, i):
        l = self.v(l)
        n = vname(self.I, l)
        if n == 'Array': return self.out(self.seq(i, [self.T('OpenBracket', pos), self.L(l[3][0], self.m_Expr, 'Comma'), self.T('CloseBracket')]), PRIMARY)
        if n == 'Dict': return self.out(self.seq(i, [self.T('OpenDict', pos), self.L(l[3][0], self.entry, 'Comma'), self.T('CloseBracket')]), PRIMARY)
        if n == 'Function':
            f = self.fields(l)
            return self.out(self.seq(i, [self.T(('Keyword', 'Function'), pos)] + self.function(f)), PRIMARY)
        k = self.t(i, 'Literal')
        if k is None or n is None or not self.at(i, pos, k): return []
        lti = self.G.lit_ti
        w, d = self.disc(self.payload(k), lti)
        if n == 'Bool': ok = w in ('True', 'False') and l[3][0][0] == 'k' and l[3][0][1] == (w == 'True')
        elif n == 'Nil': ok = w == 'Nil'
        else: ok = w == n and self.same(l[3][0], self.I.mk('f', d, ('n', 0)))
        return [(i + 1, PRIMARY, ())] if ok else []
    def function(self, f):
        return [self.T('OpenParens'), self.L(f['params'], lambda y, j: [(e, None, ()) for e in self.ident(j, y)], 'Comma'), self.T('CloseParens'), self.B(f['body']), self.T(('Keyword', 'End'))]
    def entry(self, x, j):
        x = self.v(x)
        if x[0] == 's': x = self.I.expand(self.st, x)
        if x[0] != 'a' or len(x[3]) != 2: return []
        return self.out(self.seq(j, [lambda k: [(e, None, ()) for e in self.ident(k, x[3][0])], self.T('Colon'), self.X(x[3][1])]), None)
    def m_Block(self, x, i):
        x = self.v(x)
        if self.nt(i, x, ('Block',)): return [(i + 1, None, ())]
        if x[0] != 'a' or vname(self.I, x) != 'Block': return []
        return self.R(self.items(x[3][0]), self.m_Statement)(i)
    def m_Statement(self, x, i):
        x = self.v(x)
        if self.nt(i, x, ('Statement',)): return [(i + 1, None, ())]
        if x[0] != 'a': return []
        n = vname(self.I, x)
        if n == 'Expr': return self.out(self.m_seq1(x[3][0], i), None)
        f = self.fields(x); pos = f.get('pos')
        kw = lambda w, p=None: self.T(('Keyword', w), p)
        if n == 'Let':
            r = []
            ident = lambda j: [(e, None, ()) for e in self.ident(j, ('a', None, 0, (f['identifier'], pos)))]
            r += self.out(self.seq(i, [kw('Let'), ident, self.T(('Operator', 'Assign')), self.X(f['init'])]), None)
            y = self.v(f['init'])
            if y[0] == 'a' and vname(self.I, y) == 'Literal':
                l = self.v(self.fields(y)['literal'])
                if vname(self.I, l) == 'Nil': r += self.out(self.seq(i, [kw('Let'), ident]), None)
                if vname(self.I, l) == 'Function':
                    r += self.out(self.seq(i, [kw('Function', self.fields(y)['pos']), ident] + self.function(self.fields(l))), None)
            return r
        if n == 'Assign': return self.out(self.seq(i, [self.X(f['left']), self.T(('Operator', 'Assign'), pos), self.X(f['right'])]), None)
        if n == 'Return':
            r = self.out(self.seq(i, [kw('Return', pos), self.X(f['expr'])]), None)
            y = self.v(f['expr'])
            if y[0] == 'a' and vname(self.I, y) == 'Literal' and vname(self.I, self.v(self.fields(y)['literal'])) == 'Nil':
                r += self.out(self.seq(i, [kw('Return', pos)]), None)
            return r
        if n == 'Break': return self.out(self.seq(i, [kw('Break', pos)]), None)
        if n == 'While': return self.out(self.seq(i, [kw('While', pos), self.X(f['condition']), kw('Do'), self.B(f['block']), kw('End')]), None)
        if n == 'For':
            ident = lambda j: [(e, None, ()) for e in self.ident(j, ('a', None, 0, (f['identifier'], pos)))]
            return self.out(self.seq(i, [kw('For'), ident, kw('In'), self.X(f['expr']), kw('Do'), self.B(f['block']), kw('End')]), None)
        return []
    def m_seq1(self, x, i): return self.seq(i, [self.X(x)])

    # commands
    def m_CommandBlock(self, x, i):
        x = self.v(x)
        if self.nt(i, x, ('CommandBlock',)): return [(i + 1, None, ())]
        if x[0] != 'a': return []
        f = self.fields(x)
        k = {'Synchronous': 'Command', 'Asynchronous': 'AsyncCommand', 'Capture': 'CaptureCommand'}.get(self.op(f['kind']))
        tail = self.items(f['tail'])
        if k is None or tail is None: return []
        return self.out(self.seq(i, [self.T(k), self.L(('a', None, 'vec', tuple([f['head']] + tail)), self.m_Command, 'Semicolon'), self.T('CloseCommand')]), None)
    def m_Command(self, x, i):
        x = self.v(x)
        if self.nt(i, x, ('Command',)): return [(i + 1, None, ())]
        if x[0] != 'a': return []
        f = self.fields(x)
        tail = self.items(f['tail'])
        if tail is None: return []
        steps = [lambda j: self.m_BasicCommand(f['head'], j)]
        for y in tail: steps += [self.T('Pipe'), lambda j, y=y: self.m_BasicCommand(y, j)]
        return self.out(self.seq(i, steps), None)
    def m_BasicCommand(self, x, i):
        x = self.v(x)
        if self.nt(i, x, ('BasicCommand',)): return [(i + 1, None, ())]
        if x[0] != 'a': return []
        f = self.fields(x)
        steps = [self.R(self.items(f['env']), self.env), lambda j: self.program(f, j), self.R(self.items(f['arguments']), self.m_Argument), self.R(self.items(f['redirections']), self.m_Redirection)]
        a = self.v(f['abort_on_error'])
        b = boolval(self.I, self.st, a)
        if b is None: return []
        if not b: steps.append(self.T(('CmdOperator', 'Try')))
        return self.out(self.seq(i, steps), None)
    def program(self, f, j):
        r = self.m_Argument(f['program'], j)
        if not r: return []
        e = self.E[j]
        want = self.I.mk('f', e[1], ('n', self.G.i_argpos)) if e[0] == 'nt' else self.pos(e[1])
        if not self.same(f['pos'], want):
            self.misplaced.add(j); return []
        return r
    def m_Argument(self, x, i):
        x = self.v(x)
        if self.nt(i, x, ('Argument',)): return [(i + 1, None, ())]
        k = self.t(i, 'Argument')
        if k is None: return []
        return [(i + 1, None, ())] if self.built(x, k) else []
    def built(self, x, k):
        """the argument is built from the parts of the token, and has its position"""
        I = self.I
        if x[0] != 's': return False
        c = I.T.t[x[1]]
        if c[0] != 'call': return False
        return any(depends(I, a, self.payload(k)) for a in c[2]) and self.pos(k) in c[2]
    def env(self, x, i):
        x = self.v(x)
        if x[0] == 's': x = self.I.expand(self.st, x)
        k = self.t(i, 'Argument')
        if k is None or x[0] != 'a' or len(x[3]) != 2: return []
        key = self.v(x[3][0])
        return [(i + 1, None, ())] if depends(self.I, self.I.term(self.st, key), self.payload(k)) and self.built(self.v(x[3][1]), k) else []
    def m_Redirection(self, x, i):
        x = self.v(x)
        if self.nt(i, x, ('Redirection',)): return [(i + 1, None, ())]
        if x[0] != 'a': return []
        f = self.fields(x); n = vname(self.I, x)
        if n == 'Input':
            k = self.t(i, ('CmdOperator', 'Input'))
            if k is None or not self.same(f['literal'], self.opfield(k)): return []
            return self.out(self.seq(i + 1, [lambda j: self.m_Argument(f['source'], j)]), None)
        if n != 'Output': return []
        s = self.v(f['source'])
        r = []
        st_ = self.I.term(self.st, s)
        if s[0] == 'k' or self.is_stdout(st_):
            if s[0] != 'k' or s[1] == 1: r += self.output(f['target'], i)
        else:
            k = self.t(i, 'Argument')
            if k is not None and depends(self.I, st_, self.payload(k)): r += self.output(f['target'], i + 1)
        return r
    def is_stdout(self, t):
        """the file descriptor of the standard output stream"""
        k = self.I.T.t[t]
        if k[0] != 'call' or not k[1].endswith('as_raw_fd'): return False
        a = self.I.T.t[strip_ref(self.I, k[2][0])]
        return a[0] == 'call' and a[1] == 'std::io::stdout'
    def opfield(self, k):
        I = self.I
        d = self.disc(self.payload(k), self.G.cmdop_ti)[1]
        return I.mk('f', d, ('n', 0))
    def output(self, tg, i):
        k = self.t(i, ('CmdOperator', 'Output'))
        tg = self.v(tg)
        if k is None or tg[0] != 'a': return []
        n = vname(self.I, tg)
        app = self.st.facts.get(self.opfield(k))
        if app is None or (n == 'Append') != bool(app): return []
        if n == 'Fd':
            a = self.t(i + 1, 'Argument')
            return [(i + 2, None, ())] if a is not None and depends(self.I, self.I.term(self.st, self.v(tg[3][0])), self.payload(a)) else []
        return self.out(self.seq(i + 1, [lambda j: self.m_Argument(tg[3][0], j)]), None)

# ---- the grammar which the paths make up -----------------------------------------------------------------------
class Grammar:
    def __init__(self, P, rounds=1, inline=()):
        self.G = G = Gram(P, rounds, inline)
        self.P = P; self.I = G.I
        self.kinds = self.kinds_()
        self.paths = {}      # instance -> [Tree] of the successful paths
        self.runs = 0
        for f in G.roots():
            if f['id'] in G.inline: continue
            G.instance((f['id'], repr(['parser'])), ['parser'])
        k = 0
        while k < len(G.order):
            self.add(k); k += 1
        self.looks()
        self.memo = {}; self.shaped = {}
    def name(self, k): return self.P.fns[self.G.order[k][0]]['n']
    def short(self, k):
        n = self.name(k).split('::')[-1]
        same = [q for q in range(len(self.G.order)) if self.name(q) == self.name(k)]
        return n if len(same) == 1 else '%s#%d' % (n, same.index(k))
    def add(self, k):
        G = self.G
        out = []
        for st in G.explore(k):
            self.runs += 1
            if st.end != 'return': continue
            if G.cat(self.P.fns[G.order[k][0]])[1] and G.failed(st): continue
            T = Tree(G, st, k)
            T.lost = [e for e in T.E if e[0] == 'lost']
            T.E = [e for e in T.E if e[0] != 'lost']
            T.intact = G.intact(st)
            T.ways = T.match()
            n = G.cur(st)
            T.own = frozenset(x for x in self.kinds if self.allowed(T, n, x))
            T.next = [(e[2], frozenset(x for x in self.kinds if self.allowed(T, e[4] + 100, x))) for e in T.E if e[0] == 'nt']     # the token after each nonterminal
            T.pure = self.pure(T)
            out.append(T)
        self.paths[k] = out
    def kinds_(self):
        out = ['eof']
        for v in self.P.types[self.G.kind_ti]['v']:
            sub = self.P.types[v['f'][0][1]] if len(v['f']) == 1 else None
            if sub and sub['k'] == 'enum' and sub.get('local') and v['n'] in ('Keyword', 'Operator', 'CmdOperator'):
                out += [(v['n'], w['n']) for w in sub['v']]
            else: out.append(v['n'])
        return out
    def allowed(self, T, n, kind):
        """may the token be of the kind, for all the path knows?"""
        I, st, G = self.I, T.st, self.G
        def may(t, ti, name):
            tm = I.mk('disc', t, ('n', ti))
            d = [int(v['d']) for v in I.types[ti]['v'] if v['n'] == name][0]
            f = st.facts.get(tm)
            return f == d if f is not None else d not in st.nots.get(tm, ())
        tok = I.mk('tok', ('n', n))
        if not may(tok, G.opt, 'None' if kind == 'eof' else 'Some'): return False
        if kind == 'eof': return True
        vn = kind if isinstance(kind, str) else kind[0]
        if not may(T.kind(n), G.kind_ti, vn): return False
        if isinstance(kind, str): return True
        i = [v['n'] for v in I.types[G.kind_ti]['v']].index(vn)
        ti = I.types[G.kind_ti]['v'][i]['f'][0][1]
        return may(I.mk('f', I.mk('d', T.kind(n), ('n', i)), ('n', 0)), ti, kind[1])
    def pure(self, T):
        """does the path depend on nothing but the kinds of tokens (and flags of command operators)?"""
        I = self.I
        for t in list(T.st.facts) + list(T.st.nots):
            k = I.T.t[t]
            while k[0] in ('Eq', 'not', 'Ne', 'as'): k = I.T.t[k[1]]
            if k[0] == 'disc':
                x = k[1]
                if self.kindlike(x): continue
            elif self.kindlike(t) : continue
            return False
        return True
    def kindlike(self, x):
        """a token, its kind, what kind of keyword, operator or literal it is, a flag of an operator, or the result of a nonterminal"""
        I = self.I
        depth = 0
        while True:
            k = I.T.t[x]
            if k[0] in ('tok', 'nt'): return True
            if k[0] in ('f', 'd', '*'): x = k[1]; continue
            return False
    def last(self, T): return T.E[-1] if T.E else None
    def looks(self):
        """what may follow each nonterminal: least fixpoint"""
        L = {k: frozenset() for k in self.paths}
        ch = True
        while ch:
            ch = False
            for k, ps in self.paths.items():
                r = set()
                for T in ps:
                    if any(not (a & L[q]) for q, a in T.next): continue
                    e = self.last(T)
                    r |= (T.own & L[e[2]]) if e and e[0] == 'nt' else T.own
                if r != L[k]: L[k] = frozenset(r); ch = True
        self.look = L
        # a path on which a nonterminal is followed by what it would have read itself does not exist
        for k in self.paths: self.paths[k] = [T for T in self.paths[k] if all(a & L[q] for q, a in T.next)]
    def levels(self):
        """least precedence level of the operator at the root of what each nonterminal yields: greatest fixpoint"""
        lo = {k: PRIMARY for k in self.paths}
        ch = True
        while ch:
            ch = False
            for k, ps in self.paths.items():
                for T in ps:
                    for lev, _ in T.ways[:1]:
                        v = lo[lev[1]] if isinstance(lev, tuple) else lev
                        if v is not None and v < lo[k]: lo[k] = v; ch = True
        self.lo = lo
        return lo
    # derivation of a sequence of token kinds and categories
    def derives(self, k, seq):
        """what may follow, when the nonterminal reads exactly the sequence (empty: it cannot)"""
        self.memo = {}
        return self.d(k, tuple(seq), 0, len(seq))
    def derives_pure(self, k, seq):
        """the same, by paths only that look at nothing but kinds of tokens"""
        self.memo = {}; self.only_pure = True
        try: return self.d(k, tuple(seq), 0, len(seq))
        finally: self.only_pure = False; self.memo = {}
    only_pure = False
    def d(self, k, seq, i, j):
        key = (k, i, j, seq)
        r = self.memo.get(key)
        if r is not None: return r
        self.memo[key] = frozenset()
        out = set()
        for p in self.shapes(k):
            if self.only_pure and not p[2]: continue
            if len(p[0]) > j - i + 2: continue
            x = self.walk(p, seq, 0, i, j, None)
            if x: out |= x
        self.memo[key] = frozenset(out)
        return self.memo[key]
    def shapes(self, k):
        """the successful paths of a nonterminal, reduced to what was read: [(events, what may follow, pure)]"""
        r = self.shaped.get(k)
        if r is None:
            d = {}
            for T in self.paths[k]:
                if not T.ways: continue
                ev = []
                for e in T.E:
                    if e[0] == 't': ev.append(('t', next((x for x in self.kinds if x != 'eof' and T.is_kind(e[1], x)), None)))
                    else: ev.append(('nt', e[2], '<%s>' % e[3], frozenset(x for x in self.kinds if self.allowed(T, e[4], x))))
                pure = T.pure or T.cat not in ('Expr', 'Statement', 'Block', 'Command', 'CommandBlock')
                key = (tuple(ev), pure)
                d[key] = d.get(key, frozenset()) | T.own
            r = self.shaped[k] = [(ev, own, pure) for (ev, pure), own in d.items()]
        return r
    def walk(self, p, seq, q, i, j, after):
        """events q.. of the path against seq[i:j]; after: what may follow the nonterminal just read"""
        ev = p[0]
        if q == len(ev):
            if i != j: return None
            return p[1] if after is None else p[1] & after
        e = ev[q]
        s = seq[i] if i < j else None
        atom = isinstance(s, str) and s.startswith('<')
        if e[0] == 't':
            if s is None or atom or e[1] != s or (after is not None and s not in after): return None
            return self.walk(p, seq, q + 1, i + 1, j, None)
        out = set()
        if s == e[2]:
            r = self.walk(p, seq, q + 1, i + 1, j, self.look[e[1]])
            if r: out |= r
        last = q == len(ev) - 1
        for m in ([j] if last else range(i, j + 1)):
            if m == i + 1 and s == e[2]: continue
            if m > i and not atom and (s not in e[3] or (after is not None and s not in after)): continue
            d = self.d(e[1], seq, i, m)
            if not d: continue
            r = self.walk(p, seq, q + 1, m, j, d)
            if r: out |= r
        return out or None
