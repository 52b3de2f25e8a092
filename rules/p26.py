"""Operators group as documented."""
from lib import *
from gram import *
import p28

TECHNIQUE = 'the parsing functions read off as a grammar by abstract interpretation of their MIR; fixpoints of root operators and lookahead over that grammar'
RULE = ('Every parsing function that yields an expression is followed along every path, over symbolic tokens, with the parsing functions it calls as nonterminals. Each operator node built on a successful path must hold exactly '
        'the operands and the operator read, in the order read. The least binding operator at the root of what each nonterminal yields is computed as a fixpoint; in each operator node the left operand must bind at least as tightly as the '
        'operator, the right one more tightly, the operand of a prefix operator as tightly as one, and that of a postfix operator, call or access as tightly as these. Wherever a whole expression is expected, the function called must not '
        'stop before an operator that could continue the expression, and must accept every operator and every pair of operators. Analysis must keep the operator and its operands (as in P28).')
ASSUMPTIONS = ['the tokens are those P25 decides', 'a loop is followed for two rounds (thorough: three), which covers pairs (triples) of operators of one level']

class Sub:
    """passes on the findings a predicate selects"""
    def __init__(self, R, want): self.R = R; self.want = want
    def bad(self, key, msg):
        if self.want(key): self.R.bad(key, msg)
    def count(self, *a): pass
    def floor(self, *a): pass
    def note(self, *a): pass
    def __getattr__(self, n): return getattr(self.R, n)

KW = lambda w: ('Keyword', w)
OP = lambda w: ('Operator', w)
BIN = [o for l in LEVELS for o in l]
OPS = [OP(o) for o in BIN] + [OP('Try'), OP('Dot'), 'OpenParens', 'OpenBracket']

def operators(T):
    """does the tree or what was read hold an operator?"""
    if any(T.disc(T.kind(e[1]), T.G.kind_ti)[0] == 'Operator' for e in T.E if e[0] == 't'): return True
    x = T.v(T.ret)
    return vname(T.I, x) in ('UnaryOp', 'BinaryOp', 'Call', 'Access')

def show(g, T):
    out = []
    for e in T.E:
        if e[0] == 't':
            v, d = T.disc(T.kind(e[1]), g.G.kind_ti)
            i = next((i for i, x in enumerate(g.kinds) if x != 'eof' and T.is_kind(e[1], x)), None)
            k = g.kinds[i] if i is not None else '?'
            out.append(k if isinstance(k, str) else k[1])
        else: out.append('<%s>' % e[3])
    return ' '.join(out) or 'nothing'

def free(g):
    """nonterminals called where a whole expression is expected"""
    out = {}
    for k, ps in g.paths.items():
        for T in ps:
            if not T.ways: continue
            lev, cons = T.ways[0]
            bound = {c[0][1] for c in cons if isinstance(c[0], tuple)}
            whole = len(T.E) == 1
            for e in T.E:
                if e[0] != 'nt' or e[3] != 'Expr': continue
                if T.cat == 'Expr' and (whole or e[2] in bound): continue
                out.setdefault(e[2], g.short(k))
    return out

def grammar(P, tier, inline=()):
    g = Grammar(P, 2 if tier == 'quick' else 3, inline)
    return g

def settled(P, tier):
    """the grammar; functions which yield less or more than they read, but whose callers make up for it, count as parts of these"""
    def failing(g): return {g.G.order[k][0] for k, ps in g.paths.items() if any(not T.ways or not T.intact or T.lost for T in ps)}
    g = first = grammar(P, tier)
    inl = set()
    for _ in range(4):
        fail = failing(g)
        if not fail: return g
        # innermost first: those which call no other such function
        calls = {}
        for k, ps in g.paths.items():
            for T in ps:
                for e in T.E:
                    if e[0] == 'nt': calls.setdefault(g.G.order[k][0], set()).add(g.G.order[e[2]][0])
        inner = {f for f in fail if not (calls.get(f, set()) & fail - {f})} or fail
        if inner <= inl: break
        inl |= inner
        try: g = grammar(P, tier, inl)
        except RuntimeError: break
        if not g.paths: break
    return g if g.paths and not failing(g) else first

def check(P, R, tier):
    g = settled(P, tier)
    lo = g.levels()
    n = 0
    for k, ps in g.paths.items():
        if not ps or ps[0].cat != 'Expr': continue
        R.count('functions')
        for T in ps:
            R.count('paths')
            if not T.ways:
                if operators(T): R.bad('node:%s:%s' % (g.short(k), show(g, T)), '%s reads %s but yields an expression which is something else: %s' % (g.name(k), show(g, T), g.I.show(g.I.term(T.st, T.ret, 10), 10)[:600]))
                continue
            bad = None
            for lev, cons in T.ways:
                r = [(c, lo[c[0][1]] if isinstance(c[0], tuple) else c[0]) for c in cons]
                r = [(c, l) for c, l in r if l is not None and l < c[1]]
                if not r: bad = None; break
                bad = bad or r
            n += len(T.ways[0][1])
            for c, l in bad or []:
                R.bad('prec:%s:%s' % (g.short(k), c[2]), '%s, reading %s: %s can be an expression with %s at its root, without parentheses' % (g.name(k), show(g, T), c[2], rootname(l)))
    R.count('operand_positions', n)
    top = free(g)
    if not top: R.bad('anchor', 'no function parses whole expressions')
    for k, where in sorted(top.items()):
        R.count('whole_expressions')
        for x in OPS:
            if x in g.look[k]: R.bad('munch:%s:%s' % (g.short(k), x), 'an expression read by %s (for %s) can end before %s' % (g.name(k), where, x if isinstance(x, str) else x[1]))
        E = '<Expr>'
        seqs = [[E, OP(a), E] for a in BIN] + [[OP(u), E] for u in ('Minus', 'Not')] + [[E, OP('Try')], [E, OP('Dot'), 'Identifier'], [E, 'OpenBracket', E, 'CloseBracket'], [E, 'OpenParens', 'CloseParens']]
        seqs += [[E, OP(a), E, OP(b), E] for a in BIN for b in BIN]
        seqs += [[OP(u), E, OP(a), E] for u in ('Minus', 'Not') for a in BIN] + [[E, OP(a), OP(u), E] for u in ('Minus', 'Not') for a in BIN]
        seqs += [[OP(u), OP(v), E] for u in ('Minus', 'Not') for v in ('Minus', 'Not')] + [[OP(u), E, OP('Try')] for u in ('Minus', 'Not')]
        seqs += [[E, OP(a), E, OP('Try')] for a in BIN] + [[E, OP('Try'), OP(a), E] for a in BIN] + [[E, OP('Try'), OP('Dot'), 'Identifier', ], [E, OP('Dot'), 'Identifier', 'OpenParens', 'CloseParens']]
        for s in seqs:
            R.count('sequences')
            if not g.derives(k, s): R.bad('accept:%s:%s' % (g.short(k), ' '.join(x if isinstance(x, str) else x[1] for x in s)), '%s does not accept %s as an expression' % (g.name(k), ' '.join(x if isinstance(x, str) else x[1] for x in s)))
    # analysis keeps the operator
    p28.check(P, Sub(R, lambda key: key.startswith(('conversion:BinaryOp', 'conversion:UnaryOp', 'node:BinaryOp', 'node:UnaryOp'))), tier)
    R.floor('functions', 2); R.floor('paths', 30); R.floor('operand_positions', 15); R.floor('whole_expressions', 1); R.floor('sequences', 200)

def rootname(l):
    if l <= len(LEVELS): return '/'.join(LEVELS[l - 1])
    return {PREFIX: 'a prefix operator', POSTFIX: 'a postfix operator'}.get(l, 'an operator')
