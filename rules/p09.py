"""Control flow."""
from evalspec import *

RULE = ('Path-sensitive dataflow over the evaluator, one node kind at a time with its sub-nodes opaque: on every path the control flow '
        'of the node is derived from the flow of the last sub-node evaluated (an abrupt flow of a sub-expression is passed on unchanged, '
        'a loop absorbs exactly break, return wraps its value, a conditional has the flow of the branch taken, a block that of its last '
        'statement), conditions that are no booleans raise a panic, and the call routine turns a return of the body into its result.')
ASSUMPTIONS = ['loops are followed for two full rounds', 'a break that leaves a function body is excluded by semantic analysis (P04)']

def same_flow(E, I, st, o, tm, kind):
    """is the outcome exactly the flow the step gave?"""
    if o[0] != 'flow': return False
    ft = E.flow_of(I, tm, kind)
    n = o[1]
    if '|' in n: return o[2][0] == 's' and o[2][1] == ft
    fv = ('s', ft, E.flow_ti)
    if vnames(I, st, fv, E.flow_ti) != {n}: return False
    if n == 'Break': return True
    i = [y['n'] for y in I.types[E.flow_ti]['v']].index(n)
    return o[2] is not None and I.term(st, o[2]) == I.mk('f', I.mk('d', ft, ('n', i)), ('n', 0))

def is_nil(I, v): return v is not None and vname(I, v) == 'Nil'

def check(P, R, tier):
    E = Eval(P)
    for s in scenarios(E, tier == 'thorough'):
        I, res = explore(E, s)
        ct = child_terms(E, I, s)
        R.count('nodes')
        for st in res:
            if st.end in ('infeasible', 'cut'): continue
            R.count('paths')
            h = history(E, I, s, st, ct)
            o = E.outcome(I, st, s.kind)
            def bad(w, m): R.bad('flow:%s:%s' % (s.label, w), 'evaluating %s: %s; %s' % (s.label, m, fmt_path(I, st)))
            if st.end in ('rpanic', 'diverge', 'unreachable'): continue
            last = h[-1] if h else None
            if last and last[3] == 'panic': continue          # P10
            names = [x[0] for x in h]
            # abrupt flow of a sub-expression (or statement of a block) that is not the loop body
            if last and last[1] != 'call' and last[3] and 'Regular' not in last[3] and not (s.label in ('While', 'For') and last[0] == 'block'):
                R.count('abrupt_flows')
                if not same_flow(E, I, st, o, last[2], last[1]): bad('abrupt:' + last[0], 'the %s of its %s is not passed on, it %s' % (last[3], last[0], desc(I, o)))
                continue
            if any(x[1] != 'call' and x[3] is None for x in h) and not (last and last[3] is None): bad('ignored', 'the flow of %s is ignored' % [x[0] for x in h if x[3] is None][0]); continue
            lb = s.label
            if lb in ('If', 'While') and last and last[0] == 'condition' and bool_of(E, I, st, last) == 'nonbool':
                R.count('conditions')
                if o[0] != 'panic': bad('condition', 'a condition that is no boolean %s' % desc(I, o))
                continue
            if lb == 'If':
                if last and last[0] in ('then', 'otherwise'):
                    R.count('branches')
                    if not same_flow(E, I, st, o, last[2], last[1]) and not whole(E, I, st, o, last): bad('branch:' + last[0], 'the result of the branch taken is not the result, it %s' % desc(I, o))
                else: bad('nobranch', 'ends without running a branch (%s)' % desc(I, o))
            elif lb in ('While', 'For'):
                if last and last[0] == 'block':
                    R.count('loop_ends')
                    if last[3] == 'Break':
                        if o[0] != 'flow' or o[1] != 'Regular': bad('break', 'a break in the body does not simply end the loop, it %s' % desc(I, o))
                        elif not is_nil(I, o[2]): bad('break', 'a loop yields something other than nil')
                    elif last[3] == 'Return':
                        if not same_flow(E, I, st, o, last[2], last[1]): bad('return', 'a return in the body is not passed on, it %s' % desc(I, o))
                    else: bad('stop', 'the loop ends after a body that %s' % (last[3],))
                elif last and last[0] == 'condition' or (last and last[0] == 'call'):
                    if o[0] == 'flow' and (o[1] != 'Regular' or not is_nil(I, o[2])): bad('end', 'the finished loop %s' % desc(I, o))
                    if last[0] == 'condition' and o[0] != 'flow': bad('end', 'the finished loop %s' % desc(I, o))
            elif lb == 'Return':
                if last is None or o[0] != 'flow' or o[1] != 'Return' or I.term(st, o[2]) != val(E, I, last)[1]: bad('return', 'does not return the value of its expression, it %s' % desc(I, o))
            elif lb == 'Break':
                if o[0] != 'flow' or o[1] != 'Break': bad('break', 'does not break, it %s' % desc(I, o))
            elif lb == 'Expr':
                if not (last and (same_flow(E, I, st, o, last[2], last[1]) or whole(E, I, st, o, last))): bad('expr', 'does not have the flow of its expression, it %s' % desc(I, o))
            elif s.kind == 'block':
                if not s.names:
                    if o[0] != 'flow' or o[1] != 'Regular' or not is_nil(I, o[2]): bad('empty', 'an empty block %s' % desc(I, o))
                elif len(h) == len(s.names):
                    if not (same_flow(E, I, st, o, last[2], last[1]) or whole(E, I, st, o, last)): bad('last', 'does not have the flow of its last statement, it %s' % desc(I, o))
            elif lb.startswith('Assign'):
                if o[0] == 'flow' and (o[1] != 'Regular' or not is_nil(I, o[2])): bad('assign', 'an assignment %s' % desc(I, o))
            elif lb.startswith('Call/'):
                if last and last[1] == 'call':
                    want = I.mk('f', I.mk('d', last[2], ('n', 0)), ('n', 0))
                    if o[0] != 'flow' or o[1] != 'Regular' or I.term(st, o[2]) != want: bad('call', 'the result of the call is not the value of the expression, it %s' % desc(I, o))
                elif o[0] != 'panic': bad('nocall', 'ends without a call: %s' % desc(I, o))
            elif s.kind == 'expr' and not lb.startswith('UnaryOp.Try'):
                if o[0] == 'flow' and o[1] != 'Regular': bad('flow', 'has the flow %s although no sub-expression has' % o[1])
    routine(P, E, R)
    R.floor('nodes', 45)
    R.floor('abrupt_flows', 40)
    R.floor('body_flows', 2)

def whole(E, I, st, o, step):
    """the path returns the step's (uninspected) flow as it is"""
    return o[0] == 'flow' and o[2] is not None and o[2][0] == 's' and o[2][1] == E.flow_of(I, step[2], step[1])

def desc(I, o):
    if o[0] == 'flow': return 'gives %s%s' % (o[1], '(%s)' % I.show(o[2], 4) if o[2] else '')
    if o[0] == 'panic': return 'raises %s' % (panic_name(I, o[1]) or I.show(o[1], 3))
    return 'ends with %s' % (o[0],)

def routine(P, E, R):
    """the call routine on a function of the language, and the root of a program"""
    from p12 import explore_call
    for label, I, res in explore_call(E):
        for st in res:
            bodies = [e for e in st.events() if e[0] == 'eval' and e[1] == 'block']
            if not bodies or st.end != 'return': continue
            tm = bodies[-1][3]
            oc = E.step_outcome(I, st, tm, 'block')
            if oc == 'panic': continue
            R.count('body_flows')
            v = st.ret
            for nm in ('Regular', 'Return'):
                if oc and nm in oc.split('|'):
                    i = [y['n'] for y in I.types[E.flow_ti]['v']].index(nm)
                    want = I.mk('f', I.mk('d', E.flow_of(I, tm, 'block'), ('n', i)), ('n', 0))
                    if not is_variant(I, v, 'Ok') or I.term(st, v[3][0]) != want:
                        R.bad('call:%s:%s' % (label, nm), '%s: a body that ends with %s does not make its value the result of the call: %s' % (label, nm, fmt_path(I, st)))
            if oc == 'Break' : R.bad('call:%s:Break' % label, '%s: a break leaves the body and yields a value' % label)
