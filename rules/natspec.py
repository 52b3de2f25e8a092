"""Exploration of the native functions with explicit argument lists."""
from values import *

PRE = 1

def explore_native(E, fn, args, hooks=(), max_visits=3, opaque=None, max_paths=4000, selfv=None, prepare=None, look=None, **kw):
    """all paths of a native function; args: builder(V) -> tuple of language values"""
    from p12 import struct
    P = E.P
    evids = {i: k for k in E.ev for i in E.ev[k]}
    def step(I, st, c):
        fid = c.info.get('id')
        if fid in E.call_fns: return E.step_result(I, st, c, 'call', I.term(st, c.args[2]))
        if fid in evids: return E.step_result(I, st, c, evids[fid], I.term(st, c.args[1]))
        if c.name.startswith('<runtime::value::Value as std::cmp::'): return value_cmp(I, st, c)
        return ident_copy(I, st, c)
    def opq(f):
        n = f['n']
        if look is not None and look(f): return False
        return '::fmt' in n or '_DERIVE_' in n or n.startswith(('runtime::command', 'syntax::', 'semantic::')) or (opaque is not None and opaque(f))
    I = Interp(P, hooks=list(hooks) + [step], opaque=opq, max_visits=max_visits, max_paths=max_paths, **kw)
    V = Vals(P, I); I.V = V
    if prepare: prepare(I)
    av = tuple(args(V))
    I.given = av
    pre = tuple(('s', I.mk('pre', ('n', i)), E.value_ti) for i in range(PRE))
    I.const_mem[('n', 'rt')] = struct(I, P, 'runtime::Runtime', arguments=('a', None, 'vec', pre + av))
    I.const_mem[('n', 'pre')] = None
    del I.const_mem[('n', 'pre')]
    cti = fn['locals'][2]
    names = [x[0] for x in P.types[cti]['v'][0]['f']]
    f = {'runtime': ('r', ('n', 'rt'), ()), 'args_start': ('k', PRE, P.ty_by_s['usize'])}
    ctx = []
    for nm, fti in P.types[cti]['v'][0]['f']:
        ctx.append(f.get(nm, ('s', I.mk('ctx', nm), fti)))
    sf = ('s', I.mk('self'), fn['locals'][1]) if selfv is None else selfv(I, V)
    res = I.run(fn, [sf, ('a', cti, 0, tuple(ctx))])
    return I, [s for s in res if s.end != 'infeasible']

def result_of(I, st):
    """('value', v) | ('panic', name, payload) | (end, None)"""
    if st.end != 'return': return (st.end, None)
    if is_variant(I, st.ret, 'Ok'): return ('value', st.ret[3][0])
    if is_variant(I, st.ret, 'Err'): return ('panic', panic_name(I, st.ret[3][0]), st.ret[3][0])
    return ('result', st.ret)
