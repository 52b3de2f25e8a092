"""No operation uses a container which an enclosing operation holds."""
from lib import *
import re

TECHNIQUE = 'interprocedural effect analysis of dynamic borrows with a liveness analysis of the guards (typestate of the cells)'
RULE = ('Containers, captured variables, error contexts and iterators live in cells which allow many readers or one writer and abort the interpreter otherwise. For every function the set of cell types it may '
        'borrow is computed, for reading and for writing, through every call it makes: direct, virtual, through closures, and through the trait implementations (hashing, equality, ordering, printing) that a library '
        'function can reach by its bounds. While the guard of a cell is alive, on any path, no call may borrow a cell of that type for writing, nor, when the guard is a writing one, for reading: the two may be the '
        'same container, since any container can hold itself (but not one that the function has just created and not shared). Functions without arguments, and what only they reach, see no container of the script.')
ASSUMPTIONS = ['library functions run only the code their bounds give them; the garbage collector runs no code of the values',
               'collecting a cell that is borrowed is safe, as documented by the gc crate', 'unbounded recursion on self-containing values is outside this property']

GUARD = {'gc::GcCellRef': 'r', 'gc::GcCellRefMut': 'w', 'std::cell::Ref': 'r', 'std::cell::RefMut': 'w'}
CELL = re.compile(r'^(gc::GcCell|std::cell::RefCell)::<T>::(\w+)$')
OPS = {'borrow': 'r', 'borrow_mut': 'w', 'replace': 'w', 'replace_with': 'w', 'swap': 'w', 'take': 'w'}
KIND = {'gc::GcCell': 'gc', 'std::cell::RefCell': 'cell', 'gc::GcCellRef': 'gc', 'gc::GcCellRefMut': 'gc', 'std::cell::Ref': 'cell', 'std::cell::RefMut': 'cell'}
READS = ('PartialEq', 'PartialOrd', 'Ord', 'Eq', 'Debug', 'Display', 'Clone', 'Hash', 'Serialize')

class Effects:
    def __init__(s, P):
        s.P = P
        s.byname = {}
        for f in P.fns: s.byname.setdefault(f['n'], []).append(f['id'])
        s.virt = {}
        for im in P.impls:
            for m, i in im['m']:
                if i is not None: s.virt.setdefault((im['trait'], m), []).append(i)
        s.taken = {}
        for f in P.fns:
            for c in consts(f):
                if 'fn' in c and c['fn'].get('id') is not None:
                    g = P.fns[c['fn']['id']]
                    s.taken.setdefault((g['args'], P.types[g['locals'][0]]['s']), set()).add(g['id'])
        # edges and direct effects per function
        s.direct = {}; s.edges = {}; s.site = {}
        for f in P.fns:
            d = set(); es = {}
            for b in f['bb']:
                t = b[1]
                if t[0] != 'call': continue
                dd, ee = s.call(f, t)
                for x in dd: d.add(x); s.site.setdefault((f['id'], x), (None, b[2]))
                for e in ee: es.setdefault(e, b[2])
            s.direct[f['id']] = d; s.edges[f['id']] = es
        s.eff = {i: {x: s.site[(i, x)] for x in d} for i, d in s.direct.items()}
        rev = {}
        for i, es in s.edges.items():
            for e in es: rev.setdefault(e, []).append(i)
        work = [i for i in s.eff if s.eff[i]]
        while work:
            i = work.pop()
            for c in rev.get(i, ()):
                new = [x for x in s.eff[i] if x not in s.eff[c]]
                if new:
                    for x in new: s.eff[c][x] = (i, s.edges[c][i])
                    work.append(c)
    def cell(s, p, ti): return (KIND[p], s.P.types[ti]['s'])
    def call(s, f, t):
        """direct effects and callees of a call"""
        info = t[1]
        d = set(); es = set()
        if 'op' in info:
            ty_ = s.P.types[info['t']]
            m = re.match(r'^(?:for<.*?> )?(?:unsafe )?(?:extern "[^"]*" )?fn\((.*)\)(?: -> (.*))?$', ty_['s'])
            if m: es |= s.taken.get((len(t[2]), m.group(2) or '()'), set())
            return d, es
        p = info.get('p') or info['decl']
        m = CELL.match(p)
        if m and m.group(2) in OPS: d.add((OPS[m.group(2)],) + s.cell(m.group(1), info['ia'][0]))
        if info.get('kind') == 'virtual':
            es |= set(s.virt.get((info['trait'], info['m']), ()))
        elif info.get('id') is not None: es.add(info['id'])
        elif p in s.byname: es |= set(s.byname[p])
        elif info.get('trait') and info.get('p') is None:
            # a trait method of a type parameter: bounded by its callers, which record what they give
            es |= set(s.virt.get((info['trait'], info['m']), ()))
        for u in info.get('uses', ()):
            if u[0] == 'fn':
                if u[2] is not None: es.add(u[2])
                else: es |= set(s.byname.get(u[1], ()))
            elif u[0] == 'cell' and u[3].rsplit('::', 1)[-1] in READS and u[1] in KIND: d.add(('r',) + s.cell(u[1], u[2]))
            elif u[0] == 'dyn':
                for (tr, m2), ids in s.virt.items():
                    if tr == u[1]: es |= set(ids)
            elif u[0] == 'ext':
                m = CELL.match(u[1])
                if m and m.group(2) in OPS and u[2]: d.add((OPS[m.group(2)],) + s.cell(m.group(1), u[2][0]))
        return d, es
    def of_call(s, f, t):
        """{effect: callee id or None}"""
        d, es = s.call(f, t)
        out = {x: None for x in d}
        for e in es:
            for x in s.eff[e]: out.setdefault(x, e)
        return out
    def chain(s, i, x):
        out = []
        seen = set()
        while i is not None and i not in seen:
            seen.add(i); out.append(s.P.fns[i]['n'])
            i = s.eff[i][x][0]
        return out

def consts(f):
    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'k' and isinstance(x[1], dict): yield x[1]; return
            for y in x: yield from go(y)
    for b in f['bb']:
        for st in b[0]: yield from go(st)
        t = b[1]
        if t[0] == 'call': yield from go(t[2])

def guards_in(P, ti, memo):
    """[(mode, cell)] of the guards a value of the type owns"""
    if ti in memo: return memo[ti]
    memo[ti] = ()
    t = P.types[ti]
    if t is None or t['k'] in ('ref', 'ptr', 'fnptr', 'dyn'): return ()
    out = []
    if t['k'] in ('struct', 'enum') and t.get('p') in GUARD: out.append((GUARD[t['p']], (KIND[t['p']], P.types[t['a'][0]]['s'])))
    else:
        for a in t.get('a') or (): out += guards_in(P, a, memo) if isinstance(a, int) else ()
        for a in t.get('f') or (): out += guards_in(P, a if isinstance(a, int) else a[1], memo)
        if t.get('local'):
            for v in t.get('v') or ():
                for fl in v['f']: out += guards_in(P, fl[1], memo)
    memo[ti] = tuple(dict.fromkeys(out))
    return memo[ti]

def succ(t):
    if t[0] == 'goto': return [t[1]]
    if t[0] == 'switch': return [b for _, b in t[2]] + [t[3]]
    if t[0] == 'drop': return [t[2]]
    if t[0] == 'call': return [t[4]] if t[4] is not None else []
    if t[0] == 'assert': return [t[4]]
    return []

def moved(ops):
    return {o[1][0] for o in ops if o[0] == 'm' and len(o[1]) == 1}

def operands(rv):
    out = []
    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('c', 'm') and isinstance(x[1], list): out.append(x); return
            for y in x: go(y)
    go(rv[1:])
    return out

def check(P, R, tier):
    E = Effects(P)
    memo = {}
    # what a running script can reach
    roots = [i for im in P.impls if im['trait'].endswith('NativeFun') for m, i in im['m'] if i is not None]
    roots += [f['id'] for f in P.fns if f.get('local') and any('&mut runtime::Runtime' == tnorm(P.types[x]['s']) for x in f['locals'][1:f['args'] + 1])]
    roots += [f['id'] for f in P.fns if f.get('local') and f['n'] == 'main']
    need(roots, 'functions a script can call')
    free = lambda f: f['args'] == 0 and f.get('dk') in ('Fn', 'AssocFn') and f['n'] != 'main'
    seen = set(); work = [i for i in roots]
    while work:
        i = work.pop()
        if i in seen or (free(P.fns[i]) and P.fns[i]['n'] != 'main'): continue
        seen.add(i); work += list(E.edges[i])
    done = set()
    for f in P.fns:
        if f['id'] not in seen: continue
        R.count('functions')
        gl = {i: guards_in(P, t, memo) for i, t in enumerate(f['locals']) if guards_in(P, t, memo)}
        if not gl: continue
        R.count('functions_with_guards')
        # forward may-analysis of the guards alive
        n = len(f['bb'])
        inn = [None] * n
        inn[0] = frozenset(i for i in gl if 1 <= i <= f['args'])
        work = [0]
        while work:
            b = work.pop()
            out = flow(f, b, inn[b], gl)
            for s in succ(f['bb'][b][1]):
                new = out if inn[s] is None else inn[s] | out
                if new != inn[s]: inn[s] = new; work.append(s)
        for b in range(n):
            if inn[b] is None or f['bb'][b][3]: continue
            t = f['bb'][b][1]
            if t[0] != 'call': continue
            live = flow(f, b, inn[b], gl, False)
            if not live: continue
            eff = E.of_call(f, t)
            R.count('calls_under_guard')
            for l in live:
                for mode, cell in gl[l]:
                    R.count('obligations')
                    for (m, *c), via in eff.items():
                        if tuple(c) != cell or (mode == 'r' and m == 'r'): continue
                        key = '%s:%s' % (f['n'], cell[1].split('<')[0].rsplit('::', 1)[-1])
                        if key in done or fresh(P, f, l): continue
                        done.add(key)
                        ch = E.chain(via, (m,) + tuple(c)) if via is not None else []
                        R.bad(key, '%s (%s:%d) holds a %s of a cell of %s while it calls %s, which may borrow the same one for %s%s: a container that holds itself aborts the interpreter'
                              % (f['n'], f['file'], f['bb'][b][2], 'writing borrow' if mode == 'w' else 'reading borrow', cell[1], t[1].get('p') or 'a function pointer', 'writing' if m == 'w' else 'reading', ' through ' + ' > '.join(ch) if ch else ''))
    R.floor('functions', 500); R.floor('functions_with_guards', 15); R.floor('calls_under_guard', 40); R.floor('obligations', 40)

def owners(P, ti, depth=4):
    """does a value of the type hold a container?"""
    t = P.types[ti]
    return t is not None and ('Value' in t['s'] or 'gc::Gc' in t['s'] or any(x in t['s'] for x in ('::Dict', '::Array', '::Error')))

def fresh(P, f, g):
    """is the guard that of a container which this function has just created and not shared?"""
    defs = {}; refs = {}
    for b in f['bb']:
        for st in b[0]:
            if st[0] == '=' and len(st[1]) == 1:
                defs.setdefault(st[1][0], []).append(('rv', st[2]))
        t = b[1]
        if t[0] == 'call' and len(t[3]) == 1: defs.setdefault(t[3][0], []).append(('call', t))
    l = g
    for _ in range(12):
        d = defs.get(l, [])
        if len(d) != 1: return False
        k, x = d[0]
        if k == 'rv':
            if x[0] == 'ref' and all(e in ('*',) for e in x[2][1:]): l = x[2][0]
            elif x[0] == 'use' and x[1][0] in 'cm' and all(e in ('*',) for e in x[1][1][1:]): l = x[1][1][0]
            else: return False
            continue
        name = (x[1].get('m') or '')
        if name in ('borrow', 'borrow_mut', 'deref', 'deref_mut', 'as_ref', 'as_mut') and x[2] and x[2][0][0] in 'cm' and len(x[2][0][1]) == 1:
            l = x[2][0][1][0]; continue
        if name not in ('new', 'default', 'from', 'with_capacity'): return False
        # created here; shared if a reference to it is given to something which returns a container
        own = l
        alias = {own}
        for b in f['bb']:
            for st in b[0]:
                if st[0] == '=' and len(st[1]) == 1 and st[2][0] == 'ref' and st[2][2][0] in alias: alias.add(st[1][0])
        for b in f['bb']:
            t = b[1]
            if t[0] != 'call': continue
            for o in t[2]:
                if o[0] in 'cm' and o[1][0] in alias - {own} and (t[1].get('m') or '') not in ('borrow', 'borrow_mut', 'deref', 'deref_mut') and owners(P, t[5]): return False
        return True
    return False

def flow(f, b, live, gl, term=True):
    live = set(live)
    for st in f['bb'][b][0]:
        if st[0] == '=':
            mv = moved(operands(st[2]))
            live -= mv
            if len(st[1]) == 1 and st[1][0] in gl: live.add(st[1][0])
            elif st[1][0] in gl and mv & set(gl): live.add(st[1][0])
        elif st[0] == 'dead': live.discard(st[1])
    if not term: return frozenset(live)
    t = f['bb'][b][1]
    if t[0] == 'drop' and len(t[1]) == 1: live.discard(t[1][0])
    if t[0] == 'call':
        live -= moved(t[2])
        if t[3][0] in gl: live.add(t[3][0])
    return frozenset(live)
