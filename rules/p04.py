"""Misplaced constructs."""
from sem import *

RULE = ('The context an analyser carries (every field of its own) is followed as an automaton: from the context of the root block, through the context '
        'each kind of syntax node passes on to each of its parts. In every reachable combination of context and actual surroundings (inside a function, '
        'inside a loop of that function), each kind of node is explored with its parts opaque: return, self and ? must be accepted exactly inside a function, '
        'break exactly inside a loop, built-in commands exactly alone in a plain synchronous block, everything else always, and each rejection must be reported.')
ASSUMPTIONS = ['parts of a node are analysed independently of each other, except for scopes (P05) and the context passed on',
               'lists are explored up to two elements', 'a program with an ill-formed part is reported by the parser (P02)']
TECHNIQUE = 'path-sensitive abstract interpretation of the semantic analyser\'s MIR per node kind, product of the carried context with the actual nesting'

def root_context(S, P):
    fs = [f for f in P.fns if f.get('local') and f['kind'] == 'item' and f['args'] >= 1 and P.types[f['locals'][1]]['s'] == 'syntax::ast::Ast'
          and P.types[f['locals'][0]]['s'].startswith('std::result::Result<semantic::program::Program')]
    need(fs, 'the analysis of a whole source')
    out = []
    for f in fs:
        I = Interp(P, hooks=[S.hook, ident_copy], opaque=lambda g: '::fmt' in g['n'] or g['n'].startswith(('symbol::', 'semantic::error::Error::')), max_visits=3, max_depth=30)
        I.kids = {}
        res = I.run(f, [('s', I.mk('arg', ('n', i)), f['locals'][i]) for i in range(1, f['args'] + 1)])
        for st in res:
            for e in S.subs(I, st):
                if e[1] == 'Block' and e[3] not in out: out.append(e[3])
    return need(out, 'the analysis of the root block')

def child_name(I, e): return (I.kids.get(e[2]) or ('?',))[0]

def check(P, R, tier):
    S = Sem(P)
    ns = (0, 1, 2, 3) if tier == 'thorough' else (0, 1, 2)
    shapes = S.shapes(ns)
    uop = need(ty(P, 'syntax::ast::UnaryOp'), 'UnaryOp')
    todo = [(c, (False, False)) for c in root_context(S, P)]
    seen = set()
    while todo:
        state = todo.pop()
        if state in seen: continue
        if len(seen) > 64: R.bad('context:unbounded', 'the context carried by the analyser takes more than 64 values'); break
        seen.add(state)
        ctx, (infun, inloop) = state
        R.count('contexts')
        where = '%s a function, %s a loop' % ('inside' if infun else 'outside', 'inside' if inloop else 'outside')
        for label, kind, v, n in shapes:
            subs = [(label, None)]
            if (kind, v) == ('Expr', 'UnaryOp'): subs = [(label + '.' + o['n'], {'op': lambda I, nm, ti, i=i: ('a', uop, i, ())}) for i, o in enumerate(P.types[uop]['v'])]
            if kind in ('Command', 'BasicCommand', 'CommandBlock'): continue
            for lb, sub in subs:
                I, res = S.explore(kind, v, n, ctx=ctx, sub=sub)
                R.count('nodes')
                rule = None
                if (kind, v) in (('Statement', 'Return'), ('Expr', 'Self_')) or lb == 'Expr.UnaryOp.Try': rule = infun
                elif (kind, v) == ('Statement', 'Break'): rule = inloop
                ill = v == 'IllFormed'
                for st in res:
                    R.count('paths')
                    if st.end != 'return':
                        if st.end != 'rpanic': R.bad('unfollowed:' + lb, 'the analysis of %s could not be followed to its end (%s)' % (lb, st.end))
                        continue
                    for e in S.subs(I, st):
                        nm = child_name(I, e)
                        nxt = (infun, inloop)
                        if (kind, v) == ('Literal', 'Function') and e[1] == 'Block': nxt = (True, False)
                        elif kind == 'Statement' and v in ('While', 'For') and e[1] == 'Block': nxt = (infun, True)
                        if None in e[3]: R.bad('context:%s:%s' % (lb, nm), 'the context in which %s of %s is analysed depends on more than the context of the node' % (nm, lb)); continue
                        todo.append((e[3], nxt))
                    acc = S.accepted(I, st)
                    if acc is None:
                        if st.ret[0] == 's' and any(st.ret[1] == e[4] for e in S.subs(I, st)): continue
                        R.bad('unknown:' + lb, 'whether %s is accepted could not be determined' % lb); continue
                    cause = S.other_cause(I, st)
                    reps = S.reports(I, st)
                    if rule is False:
                        R.count('misplaced')
                        if acc: R.bad('accepted:%s' % lb, '%s is accepted %s; %s' % (lb, where, fmt_path(I, st)))
                        elif cause is None and not reps: R.bad('unreported:%s' % lb, '%s is rejected %s without an error; %s' % (lb, where, fmt_path(I, st)))
                    elif cause is None and not ill and not bad_target(S, I, st, kind, v):
                        R.count('well_placed')
                        if not acc: R.bad('rejected:%s' % lb, '%s is rejected %s although all of its parts are accepted; %s' % (lb, where, fmt_path(I, st)))
                        elif reps: R.bad('reported:%s' % lb, 'an error is reported %s for %s, which is accepted; %s' % (where, lb, fmt_path(I, st)))
    commands(S, P, R)
    R.floor('contexts', 3); R.floor('misplaced', 4); R.floor('well_placed', 60); R.floor('commands', 6)

def bad_target(S, I, st, kind, v):
    """assignment to something that cannot be assigned to"""
    if (kind, v) != ('Statement', 'Assign'): return False
    ti = S.ti['Expr']
    left = [f for f in I.node[3] if f[0] == 's' and f[2] == ti]
    return any(t == I.mk('n', 'left') for t in [x[1] for x in left]) and not (vnames(I, st, ('s', I.mk('n', 'left'), ti), ti) <= {'Identifier', 'Access'})

def commands(S, P, R):
    kti = need(ty(P, 'syntax::ast::command::CommandBlockKind'), 'CommandBlockKind')
    for ki, kv in enumerate(P.types[kti]['v']):
        I, res = S.explore('CommandBlock', None, 1, sub={'kind': lambda I, nm, ti: ('a', kti, ki, ())})
        extras = set()
        for st in res:
            for e in S.subs(I, st):
                if e[1] == 'Command': extras.add(e[6])
        is_async = kv['n'] != 'Synchronous'
        need(extras, 'the commands of a block')
        for ex in extras:
            for tails in (0, 1):
                for reds in (0, 1):
                    def head(I, nm, ti):
                        t = P.types[ti]
                        v = ('a', ti, 0, tuple(S.build(I, f[1], 'head.' + f[0], reds if f[0] == 'redirections' else 1) for f in t['v'][0]['f']))
                        I.kids[I.term(State(), v)] = ('head', 'BasicCommand')
                        return v
                    I, res = S.explore('Command', None, tails, extra=ex, sub={'head': head}, max_visits=4)
                    allowed = not is_async and not tails and not reds
                    lb = 'in %s block%s%s' % (kv['n'], ', in a pipeline' if tails else '', ', with a redirection' if reds else '')
                    for st in res:
                        R.count('commands')
                        if st.end != 'return':
                            if st.end != 'rpanic': R.bad('unfollowed:command', 'the analysis of a command could not be followed to its end (%s)' % st.end)
                            continue
                        b = builtin_of(I, st)
                        acc = S.accepted(I, st); cause = S.other_cause(I, st); reps = S.reports(I, st)
                        if b is None:
                            if acc and not allowed: R.bad('builtin:unchecked:' + lb, 'a command %s is accepted without looking whether it is a built-in; %s' % (lb, fmt_path(I, st)))
                            continue
                        if b and not allowed:
                            if acc: R.bad('builtin:accepted:' + lb, 'a built-in command is accepted %s; %s' % (lb, fmt_path(I, st)))
                            elif not reps and cause is None: R.bad('builtin:unreported:' + lb, 'a built-in command is rejected %s without an error' % lb)
                        elif cause is None:
                            if not acc: R.bad('command:rejected:%s:%s' % (b, lb), 'a %s command is rejected %s although its parts are accepted; %s' % ('built-in' if b else 'external', lb, fmt_path(I, st)))
                            elif reps: R.bad('command:reported:%s:%s' % (b, lb), 'an error is reported for an accepted command %s' % lb)
    I, res = S.explore('BasicCommand', None, 1)
    for st in res:
        R.count('commands')
        b = builtin_of(I, st)
        acc = S.accepted(I, st)
        if acc and b is not False: R.bad('builtin:pipeline', 'a built-in command is accepted inside a pipeline; %s' % fmt_path(I, st))
        if b and not acc and not S.reports(I, st) and S.other_cause(I, st) is None: R.bad('builtin:pipeline:unreported', 'a built-in command in a pipeline is rejected without an error')
        if b is False and S.other_cause(I, st) is None and not acc: R.bad('command:pipeline:rejected', 'an external command is rejected although its parts are accepted; %s' % fmt_path(I, st))

def builtin_of(I, st):
    """does the path know whether the program is a built-in?"""
    for t, v in st.facts.items():
        k = I.T.t[t]
        if k[0] == 'disc' and I.T.t[k[1]][0] == 'builtin': return v == 0
    return None
