"""Scenarios: the evaluator explored on every kind of node, with the protocol each node must follow."""
from lib import *

SELF_OPAQUE = ('runtime::mem::', 'runtime::value::dict::', 'runtime::value::array::', 'runtime::value::string::', 'runtime::value::error::',
               'runtime::value::function::HushFun', 'symbol::', 'runtime::source::', 'runtime::panic::')

def opaque_data(f):
    """data structure methods that cannot reach the evaluator"""
    n = f['n']
    s = (f.get('self') or '').lstrip('&')
    return any(s.startswith(p) for p in SELF_OPAQUE) or any(n.startswith(p) for p in SELF_OPAQUE[:6])

class Scn:
    def __init__(s, label, kind, variant, presets, names):
        s.label = label; s.kind = kind; s.variant = variant; s.presets = presets; s.names = names
        s.meta = {}

def seq(I, ti_elem, label, n, wrap=None):
    """explicit slice of n symbolic nodes behind a pointer"""
    els = tuple((wrap(I, i) if wrap else ('s', I.mk(label, ('n', i)), ti_elem)) for i in range(n))
    obj = ('n', ('seq', label))
    I.const_mem[obj] = ('a', None, 'array', els)
    return ('r', obj, ())

def scenarios(E, deep=False):
    P = E.P
    lit = need(ty(P, 'semantic::program::Literal'), 'Literal')
    lval = need(ty(P, 'semantic::program::Lvalue'), 'Lvalue')
    bop = need(ty(P, 'semantic::program::BinaryOp'), 'BinaryOp')
    uop = need(ty(P, 'semantic::program::UnaryOp'), 'UnaryOp')
    sym = need(ty(P, 'symbol::Symbol') or ty(P, 'intaglio::Symbol'), 'Symbol')
    out = []
    N = (0, 1, 2, 3) if deep else (0, 1, 2)
    for v in P.types[E.expr_ti]['v']:
        n = v['n']
        if n == 'Literal':
            for li, lv in enumerate(P.types[lit]['v']):
                if lv['n'] == 'Array':
                    for k in N:
                        out.append(Scn('Literal.Array/%d' % k, 'expr', n, {'literal': lambda I, o, li=li, k=k: ('a', lit, li, (seq(I, E.expr_ti, 'el', k),))}, [('el%d' % i) for i in range(k)]))
                elif lv['n'] == 'Dict':
                    for k in N:
                        out.append(Scn('Literal.Dict/%d' % k, 'expr', n, {'literal': lambda I, o, li=li, k=k: ('a', lit, li, (seq(I, None, 'item', k, lambda I, i: ('a', None, 0, (('s', I.mk('key', ('n', i)), sym), ('s', I.mk('el', ('n', i)), E.expr_ti)))),))}, [('el%d' % i) for i in range(k)]))
                else:
                    out.append(Scn('Literal.' + lv['n'], 'expr', n, {'literal': lambda I, o, li=li: I.expand(State(), o, li)}, []))
        elif n == 'Call':
            for k in N: out.append(Scn('Call/%d' % k, 'expr', n, {'args': lambda I, o, k=k: seq(I, E.expr_ti, 'el', k)}, ['function'] + ['el%d' % i for i in range(k)]))
        elif n == 'BinaryOp':
            for i, b in enumerate(P.types[bop]['v']):
                out.append(Scn('BinaryOp.' + b['n'], 'expr', n, {'op': lambda I, o, i=i: ('a', bop, i, ())}, ['left', 'right']))
        elif n == 'UnaryOp':
            for i, b in enumerate(P.types[uop]['v']):
                out.append(Scn('UnaryOp.' + b['n'], 'expr', n, {'op': lambda I, o, i=i: ('a', uop, i, ())}, ['operand']))
        elif n == 'If': out.append(Scn('If', 'expr', n, {}, ['condition', 'then', 'otherwise']))
        elif n == 'Access': out.append(Scn('Access', 'expr', n, {}, ['object', 'field']))
        else: out.append(Scn(n, 'expr', n, {}, []))
    for v in P.types[E.stmt_ti]['v']:
        n = v['n']
        if n == 'Assign':
            for li, lv in enumerate(P.types[lval]['v']):
                out.append(Scn('Assign.' + lv['n'], 'stmt', n, {'left': lambda I, o, li=li: I.expand(State(), o, li)}, ['right', 'left.object', 'left.field'] if lv['n'] == 'Access' else ['right']))
        else:
            out.append(Scn(n, 'stmt', n, {}, {'Return': ['expr'], 'While': ['condition', 'block'], 'For': ['expr', 'block'], 'Expr': [0]}.get(n, [])))
    for k in ((0, 1, 2, 3, 4) if deep else (0, 1, 2, 3)):
        out.append(Scn('Block/%d' % k, 'block', None, {'__block__': k}, ['el%d' % i for i in range(k)]))
    return out

def explore(E, s, max_visits=None, hooks=(), **kw):
    P = E.P
    opq = tuple(f['n'] for f in P.fns if f.get('local') and opaque_data(f))
    mv = max_visits or 3
    if s.kind == 'block':
        k = s.presets['__block__']
        def setup(I, box):
            arr = seq(I, E.stmt_ti, 'el', k)
            obj = ('h', I.mk('nodeptr'), E.block_ti)
            I.const_mem[obj] = ('a', E.block_ti, 0, (arr,))
            I.node = I.const_mem[obj]
            box['entry'] = I.term(State(), ('r', obj, ()))
        return E.explore('block', None, opaque=opq, extra_setup=setup, max_visits=max(mv, k + 2), hooks=hooks, **kw)
    k = sum(1 for n in s.names if str(n).startswith('el'))
    return E.explore(s.kind, s.variant, presets=s.presets, opaque=opq, max_visits=max(mv, k + 2), hooks=hooks, **kw)

def child_terms(E, I, s):
    out = {}
    for n in s.names:
        if isinstance(n, str) and n.startswith('el') and n[2:].isdigit():
            out[I.mk('&', I.mk('el', ('n', int(n[2:]))))] = n
            continue
        if n == 0: v = I.node[3][0]
        else:
            v = I.node; 
            for part in n.split('.'):
                names = [x[0] for x in I.types[v[1]]['v'][v[2]]['f']]
                v = v[3][names.index(part)]
        t = I.term(State(), v)
        nm = 'expr' if n == 0 else n.split('.')[-1]
        out[t] = nm; out[I.mk('&', t)] = nm
    return out

def history(E, I, s, st, ct=None):
    """[(name, kind, result term, outcome)] of the evaluation steps on a path"""
    ct = ct or child_terms(E, I, s)
    h = []
    for e in st.events():
        if e[0] != 'eval': continue
        kind, t, tm = e[1], e[2], e[3]
        nm = 'call' if kind == 'call' else ct.get(t)
        if nm is None: nm = ct.get(strip_ref(I, t)) or '?' + I.show(t, 4)
        h.append((nm, kind, tm, E.step_outcome(I, st, tm, kind)))
    return h

def val(E, I, h): return E.regular_value(I, h[2], h[1])

def kinds_of(E, I, st, h): return vnames(I, st, val(E, I, h), E.value_ti)

def bool_of(E, I, st, h):
    """True/False when the step gave a bool of known truth, 'nonbool', or None when not inspected"""
    ks = kinds_of(E, I, st, h)
    if 'Bool' not in ks: return 'nonbool'
    if ks != {'Bool'}: return None
    p = I.mk('f', I.mk('d', val(E, I, h)[1], ('n', E.kinds.index('Bool'))), ('n', 0))
    f = st.facts.get(p)
    return None if f is None else bool(f)

def expected(E, I, s, st, h):
    """name of the evaluation step that has to follow the given history, None when evaluation has to end,
    '*' when the path has not looked at what decides it"""
    if h:
        nm, kind, tm, oc = h[-1]
        if oc == 'panic': return None
        loop = s.label in ('While', 'For')
        if kind != 'call' and oc is not None and oc != 'Regular' and '|' not in oc and not (s.kind == 'block' or nm in ('block', 'then', 'otherwise')): return None
        if kind != 'call' and oc is not None and 'Regular' not in oc and nm != 'block': return None
    lb = s.label
    n = len(h)
    if lb.startswith('BinaryOp.'):
        if n == 0: return 'left'
        if n == 1:
            op = lb[9:]
            if op in ('And', 'Or'):
                b = bool_of(E, I, st, h[0])
                if b == 'nonbool': return None
                if b is None: return '*'
                return 'right' if b == (op == 'And') else None
            return 'right'
        return None
    if lb == 'If':
        if n == 0: return 'condition'
        if n == 1:
            b = bool_of(E, I, st, h[0])
            if b == 'nonbool': return None
            if b is None: return '*'
            return 'then' if b else 'otherwise'
        return None
    if lb == 'While':
        if n == 0: return 'condition'
        nm, kind, tm, oc = h[-1]
        if nm == 'condition':
            b = bool_of(E, I, st, h[-1])
            if b == 'nonbool': return None
            if b is None: return '*'
            return 'block' if b else None
        if oc == 'Regular': return 'condition'
        if oc in ('Break', 'Return', 'Break|Return'): return None
        return '*'
    if lb == 'For':
        if n == 0: return 'expr'
        nm, kind, tm, oc = h[-1]
        if nm == 'expr':
            ks = kinds_of(E, I, st, h[-1])
            if ks == {'Function'}: return 'call'
            if 'Function' not in ks: return None
            return '*'
        if nm == 'call': return 'block|end'
        if oc == 'Regular': return 'call'
        if oc in ('Break', 'Return', 'Break|Return'): return None
        return '*'
    if lb.startswith('Call/'):
        k = int(lb[5:])
        if n == 0: return 'function'
        if n == 1 or h[0][3] == 'Regular':
            ks = kinds_of(E, I, st, h[0])
            if 'Function' not in ks: return None
            if ks != {'Function'}: return '*'
        if n - 1 < k: return 'el%d' % (n - 1)
        if n - 1 == k: return 'call'
        return None
    if s.kind == 'block' or lb.startswith('Literal.'):
        k = len(s.names)
        return 'el%d' % n if n < k else None
    names = [('expr' if x == 0 else x.split('.')[-1]) for x in s.names]
    return names[n] if n < len(names) else None
