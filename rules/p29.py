"""The syntax tree is exactly what was written."""
from lib import *
from gram import *
from p26 import settled, free, show, KW, OP, BIN, OPS
import argparts

TECHNIQUE = 'the parsing functions read off as a grammar by abstract interpretation of their MIR; each tree built matched against the tokens read; the grammar compared with a reference grammar'
RULE = ('Every parsing function is followed along every path, over symbolic tokens, with the parsing functions it calls as nonterminals. On each successful path the tree returned must spell exactly the tokens and nonterminals read, in order, '
        'each node with the payload and position of its own token, and nothing read may be left out; the token after them must still be the current one. For every construct of the reference grammar (lists with none, one and two elements, '
        'with and without trailing separator, expressions of every form in every place where an expression may stand) there must be a successful path that depends on nothing but the kinds of the tokens, and what may follow must be '
        'exactly what the reference allows. The parts of command arguments, built from explicit lists of token parts, must be these parts in order.')
ASSUMPTIONS = ['the tokens are those P25 decides', 'a loop is followed for two rounds (thorough: three); a basic command for up to four parts (thorough: five)', 'Vec, slices and Box behave as documented']

E, B, S, A = '<Expr>', '<Block>', '<Statement>', '<Argument>'
ID = 'Identifier'
CO = lambda w: ('CmdOperator', w)

def lists(item, sep):
    """none, one, two items, with and without trailing separator"""
    return [[], item, item + [sep], item + [sep] + item, item + [sep] + item + [sep]]

def exprs():
    out = [[ID], [KW('Self_')], ['Literal']]
    out += [['OpenBracket'] + l + ['CloseBracket'] for l in lists([E], 'Comma')]
    out += [['OpenDict'] + l + ['CloseBracket'] for l in lists([ID, 'Colon', E], 'Comma')]
    out += [[KW('Function'), 'OpenParens'] + l + ['CloseParens', B, KW('End')] for l in lists([ID], 'Comma')]
    head = [KW('If'), E, KW('Then'), B]
    alt = [KW('ElseIf'), E, KW('Then'), B]; els = [KW('Else'), B]
    out += [head + x + [KW('End')] for x in ([], els, alt, alt + els)]
    out += [['OpenParens', E, 'CloseParens']]
    out += [[OP('Minus'), E], [OP('Not'), E]]
    out += [['<CommandBlock>']] + [[k, '<Command>', 'CloseCommand'] for k in ('Command', 'AsyncCommand', 'CaptureCommand')]
    # operators: P26 goes through all of them
    out += [[E, OP('Plus'), E], [E, OP('Try')], [E, OP('Dot'), ID], [E, 'OpenBracket', E, 'CloseBracket']]
    out += [[E, 'OpenParens'] + l + ['CloseParens'] for l in lists([E], 'Comma')]
    return out

def contexts(e):
    """statements with the expression in every place where one may stand"""
    return [e, [ID, OP('Assign')] + e, [KW('Let'), ID, OP('Assign')] + e, [KW('Return')] + e, [KW('While')] + e + [KW('Do'), B, KW('End')], [KW('For'), ID, KW('In')] + e + [KW('Do'), B, KW('End')],
            [KW('If')] + e + [KW('Then'), B, KW('End')], [ID, 'OpenParens'] + e + ['CloseParens'], [ID, 'OpenParens', E, 'Comma'] + e + ['CloseParens'], ['OpenBracket'] + e + ['CloseBracket'], ['OpenBracket', E, 'Comma'] + e + ['CloseBracket'],
            ['OpenDict', ID, 'Colon'] + e + ['CloseBracket'], ['OpenParens'] + e + ['CloseParens'], [ID, 'OpenBracket'] + e + ['CloseBracket'], [KW('If'), E, KW('Then'), B, KW('ElseIf')] + e + [KW('Then'), B, KW('End')]]

def reference(g):
    """category -> [(sequence, what may follow or None)]"""
    ALL = frozenset(g.kinds)
    X = ALL - frozenset(OPS)
    T = frozenset([KW('End'), KW('Else'), KW('ElseIf')])
    CT = frozenset(['Semicolon', 'Pipe', 'CloseCommand'])
    ref = {}
    ref['Expr'] = [(s, X) for s in exprs()]
    st = [([KW('Let'), ID], ALL - {OP('Assign')}), ([KW('Let'), ID, OP('Assign'), E], X), ([KW('Return')], T), ([KW('Return'), E], X), ([KW('Break')], ALL),
          ([KW('While'), E, KW('Do'), B, KW('End')], ALL), ([KW('For'), ID, KW('In'), E, KW('Do'), B, KW('End')], ALL), ([E], X - {OP('Assign')}), ([E, OP('Assign'), E], X)]
    st += [([KW('Function'), ID, 'OpenParens'] + l + ['CloseParens', B, KW('End')], ALL) for l in lists([ID], 'Comma')]
    for e in exprs():
        if e[0] != E: st += [(c, None) for c in contexts(e)]
    ref['Statement'] = st
    ref['Block'] = [([], None), ([S], None), ([S, S], None)]
    ref['CommandBlock'] = [([k] + l + ['CloseCommand'], ALL) for k in ('Command', 'AsyncCommand', 'CaptureCommand') for l in lists(['<Command>'], 'Semicolon')[1:]]
    ref['Command'] = [(['<BasicCommand>'], None), (['<BasicCommand>', 'Pipe', '<BasicCommand>'], None), (['<BasicCommand>', 'Pipe', '<BasicCommand>', 'Pipe', '<BasicCommand>'], None)]
    bc = []
    for env in ([], ['Argument'], ['Argument', 'Argument']):
        for args in ([], [A], [A, A]):
            for red in ([], ['<Redirection>'], ['<Redirection>', '<Redirection>']):
                for t in ([], [CO('Try')]):
                    s = env + [A] + args + red + t
                    if len(s) <= 4: bc.append((s, ALL if t else CT))
    ref['BasicCommand'] = bc
    ref['Redirection'] = [([CO('Input'), A], None), ([CO('Output'), A], None), (['Argument', CO('Output'), A], None), ([CO('Output'), 'Argument'], None), (['Argument', CO('Output'), 'Argument'], None)]
    ref['Argument'] = [(['Argument'], ALL)]
    return ref

def entries(g):
    """category -> instances called for it from another category (for expressions: wherever a whole one is expected)"""
    out = {}
    for k, ps in g.paths.items():
        for T in ps:
            for e in T.E:
                if e[0] == 'nt' and e[3] != T.cat: out.setdefault(e[3], {}).setdefault(e[2], g.short(k))
    out['Expr'] = free(g)
    return out

def word(x): return x if isinstance(x, str) else x[1]
def words(s): return ' '.join(word(x) for x in s) or 'nothing'

def check(P, R, tier):
    g = settled(P, tier)
    for k, ps in sorted(g.paths.items()):
        R.count('functions')
        for T in ps:
            R.count('paths')
            key = '%s:%s' % (g.short(k), show(g, T)[:80])
            if T.lost: R.bad('lost:' + key, '%s, reading %s, takes the current token and calls another parsing function without it' % (g.name(k), show(g, T)))
            if not T.intact: R.bad('lost:' + key, '%s, having read %s, drops the token after it' % (g.name(k), show(g, T)))
            if not T.ways:
                why = ' (a node does not have the position of its token)' if T.misplaced else ''
                R.bad('tree:' + key, '%s reads %s but the tree it yields spells something else%s: %s' % (g.name(k), show(g, T), why, g.I.show(g.I.term(T.st, T.ret, 10), 10)[:700]))
    blocks(g, R)
    ref, ent = reference(g), entries(g)
    for cat, prods in ref.items():
        ks = ent.get(cat)
        if not ks:
            if cat != 'Redirection': R.bad('anchor:' + cat, 'no function parses a %s for another construct' % cat)
            else: ks = {}
        if cat == 'Redirection' and not ks:
            # parsed as a part of the basic command
            cat2 = 'BasicCommand'
            for k in ent.get(cat2, {}):
                for s, look in prods: accept(g, R, k, [A] + s, None, 'BasicCommand')
            continue
        for k in sorted(ks):
            for s, look in prods: accept(g, R, k, s, look, cat)
    argparts.check(P, R, tier, g)
    R.floor('functions', 8); R.floor('paths', 300); R.floor('constructs', 300)

def accept(g, R, k, s, look, cat):
    R.count('constructs')
    d = g.derives(k, s)
    if not d:
        R.bad('accept:%s:%s' % (cat, words(s)), '%s does not accept %s' % (g.name(k), words(s))); return
    if cat in ('Expr', 'Statement', 'Block', 'Command', 'CommandBlock') and not g.derives_pure(k, s):
        R.bad('accept:%s:%s' % (cat, words(s)), '%s accepts %s only under further conditions' % (g.name(k), words(s)))
    if look is not None and d != look:
        for x in sorted(map(word, d - look))[:4]: R.bad('follow:%s:%s:%s' % (cat, words(s), x), '%s, having read %s, can stop before %s' % (g.name(k), words(s), x))
        for x in sorted(map(word, look - d))[:4]: R.bad('follow:%s:%s:not-%s' % (cat, words(s), x), '%s, having read %s, does not accept %s after it' % (g.name(k), words(s), x))

def blocks(g, R):
    """a block ends where the documentation says it does"""
    ends = {'eof', KW('End'), KW('Else'), KW('ElseIf')}
    I = g.I
    for k, ps in g.paths.items():
        for T in ps:
            if T.cat != 'Block' or not T.ways or not T.E or any(e[0] != 'nt' or e[3] != 'Statement' for e in T.E): continue
            R.count('blocks')
            def may_return(e):
                ti = ty(g.P, 'syntax::ast::Statement')
                return vnames(I, T.st, ('s', e[1], ti), ti)
            if may_return(T.E[-1]) != {'Return'} and not T.own <= ends:
                R.bad('block:end:%s' % g.short(k), '%s can end a block before %s' % (g.name(k), ', '.join(sorted(map(word, T.own - ends))[:4])))
            for e in T.E[:-1]:
                if 'Return' in may_return(e): R.bad('block:return:%s' % g.short(k), '%s goes on with the block after a return' % g.name(k)); break
