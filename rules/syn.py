"""The parser: its state, its token source and what consumes tokens."""
from lib import *

def contains(I, t, sub, memo=None):
    """does the term hold the given one (other than as the cause of a change)?"""
    memo = {} if memo is None else memo
    if t == sub: return True
    if t in memo: return memo[t]
    memo[t] = False
    k = I.T.t[t]
    r = False
    if k[0] != 'mut':
        for x in k[1:]:
            if isinstance(x, bool): continue
            if isinstance(x, int): r = contains(I, x, sub, memo)
            elif isinstance(x, tuple) and not (len(x) == 2 and x[0] == 'n'): r = any(isinstance(y, int) and contains(I, y, sub, memo) for y in x)
            if r: break
    memo[t] = r
    return r

class Syn:
    def __init__(self, P):
        self.P = P
        self.token_ti = need(ty(P, 'syntax::lexer::token::Token'), 'Token')
        self.parsers = [i for i, t in enumerate(P.types) if t and t['k'] == 'struct' and t.get('local') and t['s'].startswith('syntax::parser::Parser<')]
        need(self.parsers, 'Parser')
        self.memo = {}
    def is_source(self, ti):
        """a (reference to an) iterator over the scanner"""
        t = self.P.types[ti]
        while t and t['k'] == 'ref': t = self.P.types[t['to']]
        return bool(t) and 'syntax::lexer::Lexer' in t['s'] and not t['s'].startswith('syntax::parser::Parser')
    def consumes(self, c):
        """is the call one that takes the next token from the scanner?"""
        return (c.info.get('decl') or '').endswith('Iterator::next') and c.ats and c.ats[0] is not None and self.is_source(c.ats[0])
    def hook(self, I, st, c):
        if self.consumes(c):
            st.event(('consume', c.line, self.examined(I, st)))
            return I.opaque_call(st, c)
        return None
    def examined(self, I, st):
        """is anything known about the current token?"""
        a = getattr(I, 'parser_arg', None)
        if a is None: return True
        for v in self.token_of(I, st, a):
            if v[0] == 'a': continue
            t = I.term(st, v)
            if not any(contains(I, k, t) for k in list(st.facts) + list(st.nots)): return False
        return True
    def token_of(self, I, st, pv):
        """content of the current-token field(s) of the parser behind pv"""
        obj, path = I.deref(st, pv, None) if pv[0] != 'r' else (pv[1], pv[2])
        v = I.read(st, obj, path)
        ti = v[1] if v[0] == 'a' else v[2]
        t = self.P.types[ti]
        out = []
        for i, f in enumerate(t['v'][0]['f']):
            if self.P.types[f[1]]['s'] == 'std::option::Option<syntax::lexer::token::Token>':
                out.append(I.read(st, obj, path + (('f', i, f[1]),)))
        return out
    def stepper(self, g):
        """does the function take the next token without looking at anything?"""
        r = self.memo.get(('step', g['id']))
        if r is None:
            r = g['args'] >= 1 and self.P.types[g['locals'][1]].get('to') in self.parsers and not any(b[1][0] == 'switch' for b in g['bb']) and \
                any(b[1][0] == 'call' and isinstance(b[1][1], dict) and (b[1][1].get('decl') or '').endswith('Iterator::next') and b[1][6] and b[1][6][0] is not None and self.is_source(b[1][6][0]) for b in g['bb'])
            self.memo[('step', g['id'])] = r
        return r
    def opaque(self, g):
        n = g['n']
        return n.startswith('syntax::ast') or '::fmt' in n or ' as std::cmp::' in n or 'error::Error' in n
    def trial(self, fid):
        """does the function leave the token stream as it was whenever it fails?"""
        if fid in self.memo: return self.memo[fid]
        self.memo[fid] = False
        f = self.P.fns[fid]
        I = Interp(self.P, hooks=[self.hook, ident_copy], opaque=self.opaque, max_visits=2, max_depth=14)
        args = [('s', I.mk('arg', ('n', i)), f['locals'][i]) for i in range(1, f['args'] + 1)]
        ok = True; n = 0
        pi = [i for i in range(f['args']) if self.P.types[f['locals'][i + 1]].get('to') in self.parsers]
        if not pi: ok = False
        else:
            s0 = State()
            before = [I.term(s0, x) for x in self.token_of(I, s0, args[pi[0]])]
            for st in I.run(f, args):
                if st.end != 'return': continue
                r = st.ret
                if r[0] == 'a' and vname(I, r) == 'Ok': continue
                if any(e[0] == 'consume' for e in st.events()): ok = False
                after = [I.term(st, x) for x in self.token_of(I, st, args[pi[0]])]
                if not self.same_tokens(I, st, before, after): ok = False
                n += 1
        self.memo[fid] = ok and n > 0
        return self.memo[fid]
    def same_tokens(self, I, st, a, b):
        if len(a) != len(b): return False
        for x, y in zip(a, b):
            if x == y: continue
            # rebuilt from its parts: Some(the token)
            k = I.T.t[y]
            if k[0] == 'agg' and k[2] == '1' and len(k[3]) == 1 and k[3][0] == I.mk('f', I.mk('d', x, ('n', 1)), ('n', 0)): continue
            if k[0] == 'agg' and k[2] == '0' and st.facts.get(I.mk('disc', x, ('n', self.opt()))) == 0: continue
            return False
        return True
    def opt(self): return self.P.ty_by_s['std::option::Option<syntax::lexer::token::Token>']
