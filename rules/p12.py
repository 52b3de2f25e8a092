"""Function calls: argument, capture and self placement, frame balance."""
from evalspec import *

RULE = ('Path-sensitive dataflow over the call routine with explicit argument lists and captures (0 to 2 parameters against 0 to 2 '
        'arguments, 0 to 2 captures, with and without a self slot, native functions), over the call expression, function literals, the '
        'root of a program and the operations of the variable stack: what is stored in which slot, what is left in the argument list, '
        'and that every frame extension is undone exactly once on every way out, also through the tail call hook.')
ASSUMPTIONS = ['slot numbers assigned by semantic analysis are decided by P05', 'Vec operations behave as documented']

def stack_ops(P, E):
    """stack operations, classified by signature"""
    ops = {}
    GCV = 'gc::Gc<gc::GcCell<runtime::value::Value>>'
    for f in P.fns:
        if not f.get('local') or f['kind'] != 'item' or f.get('dk') == 'Closure' or f['args'] < 1: continue
        a = [E.argt(f, i) for i in range(1, f['args'] + 1)]
        r = E.rett(f)
        if a[0] not in ('&mut runtime::mem::Stack', '&runtime::mem::Stack'): continue
        if a[1:] == ['runtime::mem::SlotIx', 'runtime::value::Value']: ops[f['id']] = 'store'
        elif a[1:] == ['runtime::mem::SlotIx', GCV]: ops[f['id']] = 'place'
        elif a[1:] == ['runtime::mem::SlotIx']:
            if r.startswith('std::result::Result<()'): ops[f['id']] = 'extend'
            elif r == '()': ops[f['id']] = 'shrink'
            elif r == 'runtime::value::Value': ops[f['id']] = 'fetch'
            elif r == GCV: ops[f['id']] = 'capture'
    for o in ('store', 'place', 'extend', 'shrink', 'fetch', 'capture'): need(o in ops.values(), 'stack operation %s' % o)
    return ops

def mkhook(E, ops):
    def hook(I, st, c):
        op = ops.get(c.info.get('id'))
        if op:
            ts = tuple(I.term(st, x) for x in c.args[1:])
            st.ctr += 1
            tm = I.mk('stk', op, ts, ('n', st.ctr))
            st.event(('stk', op, ts, tm, c.line))
            if c.dti is not None and I.types[c.dti]['k'] == 'tuple': return [(st, I.unit())]
            return [(st, ('s', tm, c.dti))]
        return None
    return hook

def struct(I, P, name, **fs):
    ti = need(ty(P, name) or next((i for i, t in enumerate(P.types) if t and t['s'].split('<')[0] == name), None), 'type ' + name)
    t = P.types[ti]
    out = []
    for nm, fti in t['v'][0]['f']:
        if nm in fs: out.append(fs.pop(nm))
        else: out.append(('s', I.mk('field', name, nm), fti))
    need(not fs, '%s.%s' % (name, list(fs)[:1]))
    return ('a', ti, 0, tuple(out))

PRE = 1
def explore_call(E, sizes=None, ops=None):
    """(label, I, results) for the call routine; results carry .user['rt'] (runtime object)"""
    P = E.P
    ops = ops or stack_ops(P, E)
    fn_ti = need(ty(P, 'runtime::value::function::Function'), 'Function')
    out = []
    u32 = P.ty_by_s['u32']; us = P.ty_by_s['usize']
    sizes = sizes or [(p, n, k, sl) for p in (0, 1, 2) for n in (0, 1, 2) for k, sl in ((0, 0), (1, 1), (2, 1))]
    for fid in sorted(E.call_fns):
        fn = P.fns[fid]
        for cfg in sizes + [('rust', n, 0, 0) for n in (0, 1, 2)]:
            p, n, k, sl = cfg
            evids = {i: kk for kk in E.ev for i in E.ev[kk]}
            def step(I, st, c):
                kk = evids.get(c.info.get('id'))
                if kk:
                    rt = I.read(st, *I.deref(st, c.args[0], None))
                    al = args_of(E, I, st, rt)
                    t = I.term(st, c.args[1])
                    st.event(('args-at-body', al))
                    if len(c.args) > 2 and c.args[2][0] == 'a' and c.args[2][1] is not None and I.types[c.args[2][1]]['k'] == 'closure':
                        s2 = st.copy()
                        r1 = E.step_result(I, st, c, kk, t)[0]
                        outs = []
                        I.ret_to(r1[0], c.dest, c.target, r1[1]); outs.append(r1[0])
                        # the tail call hook ran during the evaluation
                        def kcont(I, s, v):
                            s.event(('hook-ran',))
                            r = E.step_result(I, s, c, kk, t)[0]
                            I.ret_to(r[0], c.dest, c.target, r[1])
                            return None
                        rr = I.invoke(s2, c.args[2], [c.args[0]], None, None, None, c.line, kcont)
                        return ('states', outs + ([s2] if rr is None else rr))
                    return E.step_result(I, st, c, kk, t)
                return ident_copy(I, st, c)
            def opq(f):
                return '::fmt' in f['n'] or f['n'].startswith('runtime::lib::')
            I = Interp(P, hooks=[mkhook(E, ops), step], opaque=opq, max_visits=6)
            args = tuple(('s', I.mk('arg', ('n', i)), E.value_ti) for i in range(n))
            pre = tuple(('s', I.mk('pre', ('n', i)), E.value_ti) for i in range(PRE))
            rt = struct(I, P, 'runtime::Runtime', arguments=('a', None, 'vec', pre + args))
            rto = ('n', 'rt')
            I.const_mem[rto] = rt
            if p == 'rust':
                f = I.expand(State(), ('s', I.mk('fun'), fn_ti), P.variant_index(fn_ti, 'Rust'))
            else:
                ctx = tuple(('a', None, 0, (('s', I.mk('cell', ('n', i)), E.value_ti), struct_slot(I, P, I.mk('slot', ('n', i))))) for i in range(k))
                I.const_mem[('n', 'ctx')] = ('a', None, 'array', ctx)
                I.const_mem[('n', 'ctxbox')] = ('r', ('n', 'ctx'), ())
                fi_ti = need(ty(P, 'semantic::program::mem::FrameInfo'), 'FrameInfo')
                oslot = [x for x in P.types[fi_ti]['v'][0]['f'] if x[0] == 'self_slot']
                ps = need(ty(P, 'semantic::program::mem::SlotIx'), 'program SlotIx')
                fi = struct(I, P, 'semantic::program::mem::FrameInfo',
                            self_slot=('a', oslot[0][1], 1 if sl else 0, (('a', ps, 0, (('s', I.mk('selfslot'), u32),)),) if sl else ()),
                            slots=('a', ps, 0, (('s', I.mk('slots'), u32),)))
                I.const_mem[('n', 'fi')] = fi
                body = ('s', I.mk('body'), P.types[[x for x in P.types[ty(P, 'runtime::value::function::HushFun')]['v'][0]['f'] if x[0] == 'body'][0][1]].get('to'))
                hf = struct(I, P, 'runtime::value::function::HushFun', params=('k', p, u32), frame_info=('r', ('n', 'fi'), ()), context=('r', ('n', 'ctxbox'), ()))
                f = ('a', fn_ti, P.variant_index(fn_ti, 'Hush'), (hf,))
            I.const_mem[('n', 'fun')] = f
            I.fun = f
            obj = ('s', I.mk('receiver'), E.value_ti)
            pos = ('s', I.mk('callpos'), fn['locals'][5])
            res = split_results(I, I.run(fn, [('r', rto, ()), obj, ('r', ('n', 'fun'), ()), ('k', PRE, us), pos]))
            out.append(('call%s' % (cfg,), I, res))
    return out

def struct_slot(I, P, t):
    return ('a', need(ty(P, 'runtime::mem::SlotIx'), 'SlotIx'), 0, (('s', t, P.ty_by_s['u32']),))

def args_of(E, I, st, rt):
    """the argument list of a runtime value, as terms, or None when unknown"""
    if rt[0] != 'a': return None
    names = [x[0] for x in I.types[rt[1]]['v'][0]['f']]
    v = rt[3][names.index('arguments')]
    if v[0] == 'a' and v[2] == 'vec': return tuple(I.term(st, x) for x in v[3])
    return None

def slot_num(I, t):
    """innermost number/term of a SlotIx term"""
    k = I.T.t[t]
    while k[0] == 'agg':
        t = k[3][0]; k = I.T.t[t]
    return t

def check(P, R, tier):
    E = Eval(P)
    ops = stack_ops(P, E)
    calls(P, E, R, ops, tier)
    call_expr(P, E, R, ops)
    literal(P, E, R, ops)
    identifiers(P, E, R, ops)
    root(P, E, R, ops)
    tails(P, E, R, ops)
    from p12stack import stack
    stack(P, E, R, ops)
    R.floor('call_configurations', 30)
    R.floor('call_paths', 60)
    R.floor('tail_paths', 20)
    R.floor('stack_operations', 6)

def calls(P, E, R, ops, tier):
    sizes = None
    if tier == 'thorough': sizes = [(p, n, k, sl) for p in range(4) for n in range(4) for k in range(3) for sl in (0, 1)]
    for label, I, res in explore_call(E, sizes, ops):
        R.count('call_configurations')
        p, n, k, sl = eval(label[4:])
        pre = tuple(I.mk('pre', ('n', i)) for i in range(PRE))
        normal = 0
        for st in res:
            if st.end == 'infeasible': continue
            R.count('call_paths')
            def bad(w, m): R.bad('call:%s:%s' % ('native' if p == 'rust' else 'hush', w), 'calling a %s function%s: %s; %s' % ('native' if p == 'rust' else 'hush', '' if p == 'rust' else ' with %d parameters, %d captures%s with %d arguments' % (p, k, ' and self' if sl else '', n), m, fmt_path(I, st)))
            ev = st.events()
            stk = [e for e in ev if e[0] == 'stk']
            bodies = [e for e in ev if e[0] == 'eval']
            rt = I.read(st, ('n', 'rt'), ())
            if st.end in ('rpanic', 'diverge'):
                if not (bodies and E.step_outcome(I, st, bodies[-1][3], 'block') in ('Break', 'Break|Regular', 'Break|Return')): bad('crash', 'crashes the interpreter')
                continue
            if st.end != 'return': bad('cut', 'could not be followed (%s)' % st.end); continue
            err = is_variant(I, st.ret, 'Err')
            if p == 'rust':
                normal += 1
                calls_ = [e for e in ev if e[0] == 'call' and e[7].get('m') == 'call']
                if len(calls_) != 1: bad('native-call', 'the native function is called %d times' % len(calls_)); continue
                ctx = [x for x in calls_[0][2] if x[0] == 'a' and 'CallContext' in I.types[x[1]]['s']]
                if not ctx: bad('native-context', 'no call context is passed'); continue
                names = [x[0] for x in I.types[ctx[0][1]]['v'][0]['f']]
                f = dict(zip(names, ctx[0][3]))
                if I.term(st, f['obj']) != I.mk('receiver'): bad('native-self', 'self is not the receiver')
                if f['args_start'][:2] != ('k', PRE): bad('native-args', 'the argument list does not start at the first argument')
                if I.term(st, f['pos']) != I.mk('callpos'): bad('native-pos', 'the position is not the one of the call')
                if args_of(E, I, st, rt) != pre: bad('native-leftover', 'arguments are left in the argument list after the call')
                rt_t = calls_[0][4]
                if err:
                    if I.term(st, st.ret[3][0]) != I.mk('f', I.mk('d', rt_t, ('n', 1)), ('n', 0)): bad('native-panic', 'the panic of the function is not the panic of the call')
                elif is_variant(I, st.ret, 'Ok'):
                    if I.term(st, st.ret[3][0]) != I.mk('f', I.mk('d', rt_t, ('n', 0)), ('n', 0)): bad('native-result', 'the result of the function is not the result of the call')
                elif not (st.ret[0] == 's' and st.ret[1] == rt_t): bad('native-result', 'the result of the function is not the result of the call')
                continue
            if n != p:
                if not err or panic_name(I, st.ret[3][0]) != 'InvalidArgs': bad('arity', 'does not raise a wrong-number-of-arguments panic'); continue
                if bodies: bad('arity', 'evaluates the body')
                else:
                    pv = st.ret[3][0]
                    ns = [I.norm(st, x) for x in pv[3]]
                    if [x[1] for x in ns[:2] if x[0] == 'k'] not in ([n, p], [p, n]): pass
                if balance(I, stk): bad('arity', 'leaves the frame on the stack')
                if args_of(E, I, st, rt) != pre: bad('arity-leftover', 'leaves arguments in the argument list')
                continue
            exts = [e for e in stk if e[1] == 'extend']
            if not bodies:
                # only a stack overflow may prevent the body from running
                over = [e for e in exts if known_err(I, st, e[3])]
                if not over or not err or panic_name(I, st.ret[3][0]) != 'StackOverflow': bad('nobody', 'the body is not evaluated'); continue
                if args_of(E, I, st, rt) != pre: bad('overflow-leftover', 'leaves arguments in the argument list')
                if balance(I, [e for e in stk if e not in over]): bad('overflow-balance', 'leaves the stack unbalanced on overflow')
                continue
            normal += 1
            if len(bodies) != 1: bad('body', 'the body is evaluated %d times' % len(bodies)); continue
            b = bodies[0]
            if b[2] != I.term(st, field_of(I, I.fun[3][0], 'body')): bad('body', 'what is evaluated is not the body of the function')
            ai = [e for e in ev if e[0] == 'args-at-body'][0][1]
            if ai != pre: bad('args-at-body', 'the arguments are still in the argument list while the body runs')
            pos_b = ev.index(b)
            before = [e for e in ev[:pos_b] if e[0] == 'stk']
            after = [e for e in ev[pos_b:] if e[0] == 'stk']
            hook_ran = any(e[0] == 'hook-ran' for e in ev)
            if hook_ran: before = [e for e in before if e[1] != 'shrink']
            if [e[1] for e in before].count('extend') != 1 or before[0][1] != 'extend' or slot_num(I, before[0][2][0]) != I.mk('slots'):
                bad('frame', 'the frame of the function is not set up once before everything else'); continue
            shr = [e for e in stk if e[1] == 'shrink']
            if len(shr) != 1 or slot_num(I, shr[0][2][0]) != I.mk('slots'):
                bad('balance', 'the frame is removed %d times%s' % (len(shr), ' when a tail call already removed it' if hook_ran else '')); continue
            if not hook_ran and shr[0] not in after: bad('balance', 'the frame is removed before the body runs')
            stores = {}
            for e in before:
                if e[1] in ('store', 'place'): stores.setdefault((e[1], slot_num(I, e[2][0])), []).append(e[2][1])
            want = {}
            for i in range(n): want[('store', I.mk('k', ('n', i)))] = [I.mk('arg', ('n', i))]
            for i in range(k): want[('place', I.mk('slot', ('n', i)))] = [I.mk('cell', ('n', i))]
            if sl: want[('store', I.mk('selfslot'))] = [I.mk('receiver')]
            for key in set(want) | set(stores):
                if stores.get(key) != want.get(key):
                    what = 'self' if key[1] == I.mk('selfslot') else 'captures' if key[0] == 'place' else 'arguments'
                    bad('slots:' + what, '%s: slot %s gets %s, expected %s' % (what, I.show(key[1], 3), [I.show(x, 3) for x in stores.get(key, [])], [I.show(x, 3) for x in want.get(key, [])]))
        if not normal and (p == 'rust' or n == p): R.bad('call:never', 'no path of the call routine runs the function (%s)' % label)

def field_of(I, v, name):
    return v[3][[x[0] for x in I.types[v[1]]['v'][v[2]]['f']].index(name)]

def known_err(I, st, tm):
    for k, v in st.facts.items():
        kk = I.T.t[k]
        if kk[0] == 'disc' and kk[1] == tm: return v == 1
    return False

def balance(I, stk):
    b = {}
    for e in stk:
        if e[1] in ('extend', 'shrink'):
            s = slot_num(I, e[2][0]); b[s] = b.get(s, 0) + (1 if e[1] == 'extend' else -1)
    return any(b.values())

def explore_node(E, s, ops, hooks=(), **kw):
    """node exploration with stack operations as events and data structures inlined"""
    old = SELF_OPAQUE
    opq = tuple(f['n'] for f in E.P.fns if f.get('local') and opaque_data(f) and not (f.get('self') or '').lstrip('&').startswith(('runtime::mem::SlotIx', 'runtime::value::function::HushFun')) and 'HushFun' not in f['n'] and 'SlotIx' not in f['n'])
    k = sum(1 for n in s.names if str(n).startswith('el'))
    return E.explore(s.kind, s.variant, presets=s.presets, opaque=opq, max_visits=max(3, k + 2), hooks=[mkhook(E, ops)] + list(hooks), **kw)

def call_expr(P, E, R, ops):
    """Call expressions hand the evaluated arguments, in order, and the receiver to the call routine"""
    for s in scenarios(E):
        if not s.label.startswith('Call/'): continue
        n = int(s.label[5:])
        I, res = explore(E, s)
        ct = child_terms(E, I, s)
        for st in res:
            if st.end in ('infeasible', 'cut'): continue
            R.count('call_expression_paths')
            h = history(E, I, s, st, ct)
            def bad(w, m): R.bad('expr:' + w, 'call expression with %d arguments: %s; %s' % (n, m, fmt_path(I, st)))
            ev = st.events()
            pushes = [e for e in ev if e[0] == 'push']
            fun = h[0] if h else None
            callev = [e for e in ev if e[0] == 'eval' and e[1] == 'call']
            if callev:
                a = callev[0][6]
                args = [x for x in h if x[0].startswith('el')]
                got = [I.term(st, e[3]) for e in pushes]
                if got != [val(E, I, x)[1] for x in args]: bad('args', 'the argument list does not get the argument values in order')
                if I.term(st, a[1]) != E.self_of(I, fun[2])[1]: bad('self', 'self of the call is not the object the function was taken from')
                ft = strip_ref(I, callev[0][2])
                fv = val(E, I, fun)[1]
                want = I.mk('f', I.mk('d', fv, ('n', E.kinds.index('Function'))), ('n', 0))
                if ft != want and not leaves(I, ft, {fv}): bad('callee', 'what is called is not the value of the callee')
                # start of the arguments: length of the argument list before the first argument was evaluated
                stt = I.term(st, a[3])
                k = I.T.t[stt]
                first = next((i for i, e in enumerate(ev) if e[0] == 'push'), None)
                if k[0] != 'len' or (n and leaves(I, stt, {x[2] for x in args})): bad('start', 'the start of the arguments is not taken before the first argument is evaluated: %s' % I.show(stt, 5))
            elif h and h[0][3] == 'Regular' and h[-1][0].startswith('el') and h[-1][3] and 'Regular' not in h[-1][3] and h[-1][3] != 'panic':
                if pushes and not any(e[0] == 'call' and e[1].endswith(('truncate', 'drain')) for e in ev[ev.index(pushes[-1]):]):
                    bad('abrupt', 'arguments stay in the argument list when an argument returns or breaks')
    R.floor('call_expression_paths', 15)
    # self of an access is the object, of anything else nil
    for s in scenarios(E):
        if s.kind != 'expr': continue
        I, res = explore(E, s)
        for st in res:
            if st.end != 'return' or not is_variant(I, st.ret, 'Ok'): continue
            x = st.ret[3][0]
            if x[0] == 's': continue
            R.count('receiver_paths')
            h = history(E, I, s, st)
            o = E.outcome(I, st, 'expr')
            if o[0] != 'flow' or o[1] != 'Regular': continue
            t = I.term(st, x[3][2])
            if s.label == 'Access':
                if t != val(E, I, h[0])[1]: R.bad('receiver:Access', 'the receiver of an accessed function is not the object: %s' % fmt_path(I, st))
            elif vname(I, x[3][2]) != 'Nil': R.bad('receiver:' + s.label, 'evaluating %s yields a receiver other than nil: %s' % (s.label, fmt_path(I, st)))
    R.floor('receiver_paths', 30)

def literal(P, E, R, ops):
    """function literals capture the variables their frame declares"""
    lit = ty(P, 'semantic::program::Literal')
    for k in (0, 1, 2):
        for s in scenarios(E):
            if s.label != 'Literal.Function': continue
            li = P.variant_index(lit, 'Function')
            u32 = P.ty_by_s['u32']
            ps = ty(P, 'semantic::program::mem::SlotIx')
            cap_ti = need(ty(P, 'semantic::program::mem::Capture'), 'Capture')
            def build(I, o):
                v = I.expand(State(), o, li)
                names = [x[0] for x in P.types[lit]['v'][li]['f']]
                fs = list(v[3])
                caps = tuple(struct(I, P, 'semantic::program::mem::Capture', **{'from': ('a', ps, 0, (('s', I.mk('from', ('n', i)), u32),)), 'to': ('a', ps, 0, (('s', I.mk('to', ('n', i)), u32),))}) for i in range(k))
                I.const_mem[('n', 'caps')] = ('a', None, 'array', caps)
                fs[names.index('frame_info')] = struct(I, P, 'semantic::program::mem::FrameInfo', captures=('r', ('n', 'caps'), ()))
                return ('a', lit, li, tuple(fs))
            s.presets = {'literal': build}
            I, res = explore_node(E, s, ops)
            for st in res:
                if st.end == 'infeasible': continue
                R.count('function_literal_paths')
                def bad(w, m): R.bad('literal:' + w, 'function literal with %d captures: %s; %s' % (k, m, fmt_path(I, st)))
                o = E.outcome(I, st, 'expr')
                if o[0] != 'flow' or o[1] != 'Regular' or vname(I, o[2]) != 'Function' or vname(I, o[2][3][0]) != 'Hush': bad('value', 'does not evaluate to a function (%s)' % (st.end,)); continue
                hf = o[2][3][0][3][0]
                lv = E.field(I, 'literal')
                ln = dict(zip([x[0] for x in P.types[lit]['v'][li]['f']], lv[3]))
                if I.term(st, field_of(I, hf, 'params')) != I.term(st, ln['params']): bad('params', 'the number of parameters is not the declared one')
                if strip_ref(I, I.term(st, field_of(I, hf, 'body'))) != strip_ref(I, I.term(st, ln['body'])): bad('body', 'the body is not the one of the literal')
                if strip_ref(I, I.term(st, field_of(I, hf, 'frame_info'))) != strip_ref(I, I.term(st, ln['frame_info'])): bad('frame', 'the frame layout is not the one of the literal')
                caps = {slot_num(I, e[2][0]): e[3] for e in st.events() if e[0] == 'stk' and e[1] == 'capture'}
                ctx = field_of(I, hf, 'context')
                w = ctx
                for _ in range(3):
                    if w[0] == 'r': w = I.read(st, w[1], w[2])
                got = []
                if w[0] == 'a' and w[2] in ('vec', 'array'):
                    got = [(I.term(st, x[3][0]), slot_num(I, I.term(st, x[3][1]))) for x in w[3]]
                want = [(caps.get(I.mk('from', ('n', i))), I.mk('to', ('n', i))) for i in range(k)]
                if sorted(map(str, got)) != sorted(map(str, want)): bad('captures', 'captures %s, expected %s' % ([(I.show(a, 4), I.show(b, 3)) for a, b in got], [(I.show(a, 4) if a is not None else None, I.show(b, 3)) for a, b in want]))
    R.floor('function_literal_paths', 3)

def identifiers(P, E, R, ops):
    for s in scenarios(E):
        if s.label == 'Identifier':
            I, res = explore_node(E, s, ops)
            for st in res:
                R.count('variable_paths')
                o = E.outcome(I, st, 'expr')
                f = [e for e in st.events() if e[0] == 'stk']
                if [e[1] for e in f] != ['fetch'] or slot_num(I, f[0][2][0]) != slot_num(I, I.mk('f', I.term(st, E.field(I, 'slot_ix')), ('n', 0))) or o[0] != 'flow' or o[1] != 'Regular' or I.term(st, o[2]) != f[0][3]:
                    R.bad('variable:read', 'reading a variable does not give the value of its slot: %s' % fmt_path(I, st))
        if s.label == 'Assign.Identifier':
            I, res = explore_node(E, s, ops)
            ct = child_terms(E, I, s)
            for st in res:
                h = history(E, I, s, st, ct)
                f = [e for e in st.events() if e[0] == 'stk']
                if h and h[-1][3] == 'Regular':
                    R.count('variable_paths')
                    lv = E.field(I, 'left')
                    want = I.mk('f', I.term(st, lv[3][[x[0] for x in I.types[lv[1]]['v'][lv[2]]['f']].index('slot_ix')]), ('n', 0))
                    if [e[1] for e in f] != ['store'] or slot_num(I, f[0][2][0]) != want or f[0][2][1] != val(E, I, h[-1])[1]:
                        R.bad('variable:write', 'assigning a variable does not store the value in its slot: %s' % fmt_path(I, st))
                elif f: R.bad('variable:write', 'an assignment whose right side has no value changes a variable: %s' % fmt_path(I, st))
    R.floor('variable_paths', 2)

def root(P, E, R, ops):
    """evaluation of a whole program leaves the stack balanced"""
    cands = [f for f in P.fns if f.get('local') and f['kind'] == 'item' and f['args'] == 2 and E.is_rt(f) and E.argt(f, 2) == '&semantic::program::Program' and E.rett(f) == 'std::result::Result<runtime::value::Value, runtime::panic::Panic>']
    need(cands, 'evaluation of a program')
    for fn in cands:
        evids = {i: kk for kk in E.ev for i in E.ev[kk]}
        def step(I, st, c):
            kk = evids.get(c.info.get('id'))
            if kk: return E.step_result(I, st, c, kk, I.term(st, c.args[1]))
            return ident_copy(I, st, c)
        I = Interp(P, hooks=[mkhook(E, ops), step], opaque=lambda f: '::fmt' in f['n'])
        res = split_results(I, I.run(fn, [('s', I.mk('self'), fn['locals'][1]), ('s', I.mk('program'), fn['locals'][2])]))
        for st in res:
            if st.end == 'infeasible': continue
            R.count('root_paths')
            def bad(w, m): R.bad('root:' + w, 'evaluating a program: %s; %s' % (m, fmt_path(I, st)))
            ev = st.events()
            stk = [e for e in ev if e[0] == 'stk']
            b = [e for e in ev if e[0] == 'eval']
            if st.end in ('diverge', 'rpanic'):
                if b and E.step_outcome(I, st, b[-1][3], 'block') not in ('Break|Return', 'Break', 'Return'):
                    # debug assertions on the length of the stack
                    if not any(e[0] == 'noreturn' and 'assert_failed' in e[1] for e in ev): bad('crash', 'crashes the interpreter')
                continue
            err = is_variant(I, st.ret, 'Err')
            over = [e for e in stk if e[1] == 'extend' and known_err(I, st, e[3])]
            if balance(I, [e for e in stk if e not in over]): bad('balance', 'the variables of the program are not removed from the stack when it %s' % ('panics' if err else 'ends'))
            if not b:
                if not over: bad('nobody', 'the program is not evaluated')
                continue
            pre = [e for e in ev[:ev.index(b[0])] if e[0] == 'stk']
            if [e[1] for e in pre][:1] != ['extend']: bad('frame', 'no frame is set up')
            stores = [e for e in pre if e[1] == 'store']
            if len(stores) != 1 or slot_num(I, stores[0][2][0]) != I.mk('k', ('n', 0)): bad('std', 'the standard library is not stored in slot 0')
            if len(b) != 1: bad('body', 'the program is evaluated %d times' % len(b))
    R.floor('root_paths', 3)

def tails(P, E, R, ops):
    """the tail call hook (which removes the frame) runs at most once and nothing of the frame is used afterwards"""
    for s in scenarios(E):
        entries = [f for f in E.ev[s.kind].values() if f['args'] == 3]
        if not entries: continue
        entry = sorted(entries, key=lambda f: len(f['bb']))[-1]
        cti = entry['locals'][3]
        if E.P.types[cti]['k'] != 'closure': continue
        def hook(I, st, c):
            if c.info.get('decl', '').endswith(('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')) and c.args[0][0] == 'a' and c.args[0][1] == cti and c.args[0][3] and c.args[0][3][0] == ('s', I.mk('tailcap'), cti):
                st.event(('tail',)); return [(st, I.unit())]
            return None
        tailv = ('a', cti, 0, (('s', 0, cti),))
        k = sum(1 for n in s.names if str(n).startswith('el'))
        opq = tuple(f['n'] for f in E.P.fns if f.get('local') and opaque_data(f))
        if s.kind == 'block':
            I, res = explore_tail_block(E, s, entry, cti, hook, ops, opq)
        else:
            I, res = explore_tail(E, s, entry, cti, hook, ops, opq, k)
        for st in res:
            if st.end in ('infeasible',): continue
            R.count('tail_paths')
            ev = st.events()
            gone = None
            for i, e in enumerate(ev):
                istail = e[0] == 'tail' or (e[0] == 'eval' and e[1] != 'call' and len(e[6]) > 2 and has_cap(I, e[6][2]))
                if gone is not None:
                    if istail: R.bad('tail:%s:twice' % s.label, 'evaluating %s: the tail call hook can run twice: %s' % (s.label, fmt_path(I, st)))
                    elif e[0] == 'stk' or (e[0] == 'eval' and e[1] != 'call') or (e[0] == 'eval' and e[1] == 'call' and ev[gone][0] != 'tail'):
                        R.bad('tail:%s:use' % s.label, 'evaluating %s: after the frame was removed for a tail call, %s is still done: %s' % (s.label, 'a variable access' if e[0] == 'stk' else 'an evaluation', fmt_path(I, st)))
                if istail and gone is None: gone = i

def has_cap(I, v):
    return v[0] == 'a' and len(v[3]) == 1 and v[3][0][0] == 's' and v[3][0][1] == I.mk('tailcap')

def explore_tail(E, s, entry, cti, hook, ops, opq, k):
    def setup(I, box): pass
    orig = E.explore
    return run_tail(E, s, entry, cti, hook, ops, opq, dict(max_visits=max(3, k + 2)))

def explore_tail_block(E, s, entry, cti, hook, ops, opq):
    k = s.presets['__block__']
    def setup(I, box):
        arr = seq(I, E.stmt_ti, 'el', k)
        obj = ('h', I.mk('nodeptr'), E.block_ti)
        I.const_mem[obj] = ('a', E.block_ti, 0, (arr,))
        I.node = I.const_mem[obj]
        box['entry'] = I.term(State(), ('r', obj, ()))
    return run_tail(E, s, entry, cti, hook, ops, opq, dict(max_visits=k + 2, extra_setup=setup))

def run_tail(E, s, entry, cti, hook, ops, opq, kw):
    tail = lambda I: ('a', cti, 0, (('s', I.mk('tailcap'), cti),))
    return E.explore(s.kind, s.variant, presets=None if s.kind == 'block' else s.presets, opaque=opq, hooks=[hook, mkhook(E, ops)], entry=entry, tail=tail, **kw)
