"""Operations of the variable stack, on stacks of 0 to 4 slots of either kind."""
from evalspec import *

def mkslots(I, P, pat):
    slot_ti = need(ty(P, 'runtime::mem::Slot'), 'Slot')
    v_ti = need(ty(P, 'runtime::value::Value'), 'Value')
    names = [v['n'] for v in P.types[slot_ti]['v']]
    need(set(names) == {'Regular', 'Closed'}, 'slot kinds')
    out = []
    for i, k in enumerate(pat):
        vi = names.index('Regular' if k == 'r' else 'Closed')
        fti = P.types[slot_ti]['v'][vi]['f'][0][1]
        out.append(('a', slot_ti, vi, (('s', I.mk('old' if k == 'r' else 'oldcell', ('n', i)), fti),)))
    return tuple(out), names

def stack(P, E, R, ops):
    import itertools
    from p12 import struct
    us = P.ty_by_s['usize']; u32 = P.ty_by_s['u32']
    six = need(ty(P, 'runtime::mem::SlotIx'), 'SlotIx')
    pats = ['r', 'c', 'rr', 'rc', 'cr', 'rrr', 'rcr', 'crrc']
    for fid, op in sorted(ops.items()):
        fn = P.fns[fid]
        R.count('stack_operations')
        for pat in [''] + pats:
            n = len(pat)
            for ix in range(0, n if op in ('store', 'place', 'fetch', 'capture') else n + 1 if op == 'shrink' else 3):
                for mx in ((n + ix, n + ix + 1, n + ix - 1) if op == 'extend' else (100,)):
                    if mx < 0: continue
                    I = Interp(P, hooks=[ident_copy], opaque=lambda f: '::fmt' in f['n'], max_visits=12)
                    slots, names = mkslots(I, P, pat)
                    stk = struct(I, P, 'runtime::mem::Stack', slots=('a', None, 'vec', slots), max_size=('k', mx, us))
                    I.const_mem[('n', 'stk')] = stk
                    args = [('r', ('n', 'stk'), ()), ('a', six, 0, (('k', ix, u32),))]
                    if op in ('store', 'place'): args.append(('s', I.mk('newval' if op == 'store' else 'newcell'), fn['locals'][3]))
                    res = [s for s in I.run(fn, args) if s.end != 'infeasible']
                    for st in res:
                        R.count('stack_paths')
                        one(P, R, I, st, op, pat, ix, mx, slots, names)
                    if not res: R.bad('stack:%s' % op, 'no path')
    R.floor('stack_paths', 60)

def cell_new(I, st, v):
    """content term of a freshly made shared cell, or None"""
    for _ in range(4):
        if v[0] == 'r': v = I.read(st, v[1], v[2])
    return I.term(st, v)

def one(P, R, I, st, op, pat, ix, mx, slots, names):
    n = len(pat)
    def bad(m): R.bad('stack:%s' % op, 'stack operation %s with offset %d on a stack of %d (%s, max %d): %s' % (op, ix, n, pat, mx, m))
    if st.end != 'return': bad('ends with %s' % st.end); return
    sv = I.read(st, ('n', 'stk'), ())
    fn = [x[0] for x in I.types[sv[1]]['v'][0]['f']]
    cur = sv[3][fn.index('slots')]
    if not (cur[0] == 'a' and cur[2] == 'vec'): bad('slots are not known afterwards: %s' % I.show(I.term(st, cur), 6)); return
    cur = cur[3]
    same = lambda a, b: I.term(st, a) == I.term(st, b)
    def keep(idx):
        if len(cur) != n: bad('the size of the stack changes'); return False
        for i in range(n):
            if i not in idx and not same(cur[i], slots[i]): bad('slot %d from the bottom changes' % i); return False
        return True
    t = n - 1 - ix
    if op == 'fetch':
        keep(())
        ok = st.ret
        if pat[t] == 'r':
            if I.term(st, ok) != I.mk('old', ('n', t)): bad('does not give the value of the slot')
        else:
            if not leaves(I, strip_ref(I, I.term(st, ok)), {I.mk('oldcell', ('n', t))}): bad('does not give the value of the captured slot')
    elif op == 'store':
        if not keep((t,) if pat[t] == 'r' else ()): return
        if pat[t] == 'r':
            if vname(I, cur[t]) != 'Regular' or I.term(st, cur[t][3][0]) != I.mk('newval'): bad('the slot does not get the value')
        else:
            if not cell_written(I, st, I.mk('oldcell', ('n', t)), I.mk('newval')): bad('the shared cell of the captured slot does not get the value')
    elif op == 'place':
        if not keep((t,)): return
        if vname(I, cur[t]) != 'Closed' or I.term(st, cur[t][3][0]) != I.mk('newcell'): bad('the slot does not refer to the given cell')
    elif op == 'capture':
        if not keep((t,) if pat[t] == 'r' else ()): return
        if vname(I, cur[t]) != 'Closed' or not same(cur[t][3][0], st.ret): bad('the slot does not share the cell that is captured'); return
        if pat[t] == 'r':
            if not leaves(I, cell_new(I, st, st.ret), {I.mk('old', ('n', t))}): bad('the captured cell does not hold the value of the variable')
        elif not same(st.ret, slots[t][3][0]): bad('an already captured variable gets another cell')
    elif op == 'shrink':
        if len(cur) != n - ix or any(not same(cur[i], slots[i]) for i in range(n - ix)): bad('does not remove exactly the top %d slots' % ix)
    elif op == 'extend':
        if is_variant(I, st.ret, 'Err'):
            if n + ix <= mx: bad('overflows below the limit')
            keep(())
        else:
            if n + ix > mx: bad('does not report an overflow above the limit'); return
            if len(cur) != n + ix or any(not same(cur[i], slots[i]) for i in range(n)): bad('does not add exactly %d slots' % ix); return
            for x in cur[n:]:
                if vname(I, x) != 'Regular' or vname(I, x[3][0]) != 'Nil': bad('new slots are not nil variables')

def cell_written(I, st, cell, new):
    for k, v in st.mem.items():
        if k[0] == 'h' and leaves(I, k[1], {cell}) and leaves(I, I.term(st, v), {new}): return True
    return False
