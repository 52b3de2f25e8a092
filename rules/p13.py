"""The iterator protocol of for loops."""
from p11 import *
from p12 import stack_ops, mkhook, slot_num

TECHNIQUE = 'path-sensitive dataflow (typestate of the iterator protocol)'
RULE = ('Typestate over every path of a for loop (two full rounds), through the dictionary lookups: the iterator is called with no arguments and nil '
        'as self; its result is looked at for the finished key, and the value key only when finished is false; the value is stored in the slot of '
        'the loop variable before the body runs, once; finished ends the loop normally; every other shape raises a panic of the documented kind '
        'without running the body.')
ASSUMPTIONS = ['two rounds of the loop stand for any number: the state carried between rounds is checked to be only the runtime']

def check(P, R, tier):
    E = Eval(P)
    ops = stack_ops(P, E)
    s = need({x.label: x for x in scenarios(E)}.get('For'), 'for statement')
    dict_ix = E.kinds.index('Dict')
    I, res = E.explore(s.kind, s.variant, presets=s.presets, hooks=[mkhook(E, ops)], max_visits=3 if tier == 'quick' else 4)
    ct = child_terms(E, I, s)
    seen = {}
    for st in live(res):
        R.count('paths')
        ev = st.events()
        def bad(w, m): R.bad('for:' + w, 'for loop: %s; %s' % (m, fmt_path(I, st)))
        h = []
        for e in ev:
            if e[0] == 'eval': h.append((ct.get(e[2], 'call' if e[1] == 'call' else '?'), e))
            elif e[0] == 'stk': h.append((e[1], e))
            elif e[0] == 'push' and 'Value' in str(I.types[e[6]]['s'] if len(e) > 6 and isinstance(e[6], int) else ''): h.append(('push', e))
        o = E.outcome(I, st, 'stmt')
        pn = panic_name(I, o[1]) if o[0] == 'panic' else None
        if not h: bad('noiter', 'the iterator is not evaluated'); continue
        if h[0][0] != 'expr': bad('first', 'something else happens before the iterator expression is evaluated'); continue
        tm0 = h[0][1][3]
        oc = E.step_outcome(I, st, tm0, 'expr')
        if oc != 'Regular': continue            # P09/P10
        it = E.regular_value(I, tm0, 'expr')
        ks = vnames(I, st, it, E.value_ti)
        if ks != {'Function'}:
            if 'Function' in ks: bad('iter', 'the type of the iterator is not checked')
            elif pn != 'TypeError' or len(h) > 1: bad('iter:type', 'an iterator that is no function does not raise a type error')
            else: seen['badtype'] = 1
            continue
        ft = I.mk('f', I.mk('d', it[1], ('n', E.kinds.index('Function'))), ('n', 0))
        i = 1; rounds = 0
        while i < len(h):
            nm, e = h[i]
            if nm != 'call': bad('order', '%s happens where the iterator has to be called' % nm); break
            R.count('iterator_calls')
            a = e[6]
            if not leaves(I, e[2], {ft}): bad('callee', 'what is called is not the iterator')
            if vname(I, a[1]) != 'Nil': bad('self', 'the iterator gets a self')
            last = i + 1 >= len(h)
            oc = E.step_outcome(I, st, e[3], 'call')
            if oc == 'panic': 
                i += 1; break
            rv = ('s', I.mk('f', I.mk('d', e[3], ('n', 0)), ('n', 0)), E.value_ti)
            ks = vnames(I, st, rv, E.value_ti)
            if ks != {'Dict'}:
                if 'Dict' in ks: bad('result', 'the type of the result of the iterator is not checked')
                elif pn != 'TypeError' or not last: bad('result:type', 'a result that is no dict does not raise a type error')
                else: seen['nodict'] = 1
                i += 1; break
            dt = I.mk('f', I.mk('d', rv[1], ('n', dict_ix)), ('n', 0))
            look = lookups(I, st, dt)
            fin = look.get('finished')
            if fin is None: bad('finished', 'the result is not looked at for the finished key (looked at: %s)' % sorted(look)); break
            if not fin[0]:
                if pn != 'IndexOutOfBounds' or not last: bad('finished:absent', 'a result without finished does not raise a panic')
                else: seen['nofin'] = 1
                i += 1; break
            fv = ('s', fin[1], E.value_ti)
            fks = vnames(I, st, fv, E.value_ti)
            if fks != {'Bool'}:
                if 'Bool' in fks: bad('finished:kind', 'finished is not checked to be a bool')
                elif pn != 'TypeError' or not last: bad('finished:type', 'a finished that is no bool does not raise a type error')
                else: seen['finkind'] = 1
                i += 1; break
            b = st.facts.get(I.mk('f', I.mk('d', fin[1], ('n', E.kinds.index('Bool'))), ('n', 0)))
            if b is None: bad('finished:ignored', 'the value of finished is ignored'); break
            if b:
                if not last or o[0] != 'flow' or o[1] != 'Regular' or vname(I, o[2]) != 'Nil': bad('finished:true', 'a finished iterator does not simply end the loop')
                else: seen['fin'] = 1
                i += 1; break
            val = look.get('value')
            if val is None: bad('value', 'the result is not looked at for its value'); break
            if not val[0]:
                if pn != 'IndexOutOfBounds' or not last: bad('value:absent', 'a result without value does not raise a panic')
                else: seen['noval'] = 1
                i += 1; break
            if st.end == 'cut' and last: i += 1; break
            if i + 2 >= len(h) and st.end == 'cut': i = len(h); break
            if i + 2 >= len(h) or h[i + 1][0] != 'store' or h[i + 2][0] != 'block': bad('bind', 'after the iterator gave a value, the loop does %s instead of binding it and running the body' % [x[0] for x in h[i + 1:i + 3]]); break
            se = h[i + 1][1]
            slot = I.mk('f', I.term(st, E.field(I, 'slot_ix')), ('n', 0))
            if slot_num(I, se[2][0]) != slot: bad('slot', 'the value is not stored in the slot of the loop variable')
            if strip_ref(I, se[2][1]) != strip_ref(I, val[1]): bad('bound', 'what is stored in the loop variable is not the value')
            seen['round'] = 1
            rounds += 1
            i += 3
            if i < len(h): seen['next'] = 1
    for k, w in (('badtype', 'iterators that are no functions'), ('nodict', 'results that are no dicts'), ('nofin', 'results without finished'), ('finkind', 'results whose finished is no bool'),
                 ('fin', 'finished iterators'), ('noval', 'results without value'), ('round', 'rounds of the loop'), ('next', 'a second round')):
        if k not in seen: R.bad('for:never:' + k, 'no path of the for loop handles %s' % w)
    arguments(P, E, R, s, ops)
    R.floor('paths', 12); R.floor('iterator_calls', 10)

def lookups(I, st, dt):
    """{key constant: (present, value term)} for the lookups in a dictionary on this path"""
    out = {}
    for k, v in st.facts.items():
        kk = I.T.t[k]
        if kk[0] != 'disc': continue
        c = I.T.t[kk[1]]
        if c[0] == 'call' and c[1].endswith('::get') and leaves(I, c[2][0], {dt}):
            for s in consts_of(I, c[2][1]):
                out[s] = (v == 1, I.mk('*', I.mk('f', I.mk('d', kk[1], ('n', 1)), ('n', 0))))
    return out

def arguments(P, E, R, s, ops):
    """the iterator is called with an empty argument list that starts at the end of the pending arguments"""
    ct = None
    seen = [0]
    def hook(I, st, c):
        if c.info.get('id') in E.call_fns:
            seen[0] += 1
            R.count('argument_lists')
            o, p = I.deref(st, c.args[0], None)
            rt = I.read(st, o, p)
            names = [x[0] for x in P.types[ty(P, 'runtime::Runtime')]['v'][0]['f']]
            ix = names.index('arguments')
            want = I.mk('len', I.mk('f', rt[1], ('n', ix))) if rt[0] == 's' else I.mk('len', I.term(st, rt[3][ix])) if rt[0] == 'a' else None
            got = I.term(st, c.args[3])
            if got != want: R.bad('for:args', 'the argument list of the iterator does not start at the end of the pending arguments: %s' % I.show(got, 6))
        return None
    I, res = E.explore(s.kind, s.variant, presets=s.presets, hooks=[hook, mkhook(E, ops)], max_visits=2)
    for st in live(res):
        if any(e[0] == 'push' for e in st.events()): R.bad('for:args', 'a for loop passes arguments to its iterator: %s' % fmt_path(I, st))
    if not seen[0]: R.bad('for:args', 'no call of the iterator')
