"""A module is evaluated at most once and resolved next to its importer."""
from natspec import *

TECHNIQUE = 'path-sensitive dataflow of std.import with an abstract model of the module cache, and a field-access scan'
RULE = ('All paths of std.import are followed with an abstract cache: every cache access must use one key, the interned canonical path of the argument joined to '
        'the directory of the importing file, and the source loaded must be that of the key; the program is evaluated at most once and only after the key was looked up and found absent, '
        'with the key marked as present meanwhile; when evaluation succeeds the cache ends up holding its value, which is also the result; when anything fails the key '
        'ends up absent; when the key is found present nothing is loaded and the result is the cached value or a panic. No other function of the program touches the cache.')
ASSUMPTIONS = ['canonicalize maps all spellings of a path to one', 'interning is injective', 'HashMap operations behave as documented']

def check(P, R, tier):
    E = Eval(P)
    fn = need(natives(P).get('std.import'), 'std.import')
    rt = need(ty(P, 'runtime::Runtime'), 'Runtime')
    fields = dict(P.types[rt]['v'][0]['f'])
    maps = [n for n, t in fields.items() if P.types[t]['s'].startswith(('std::collections::HashMap<symbol::Symbol', 'std::collections::BTreeMap<symbol::Symbol'))]
    if len(maps) != 1: need(None, 'module cache of the runtime')
    mapty = P.types[fields[maps[0]]]['s']
    evalf = [f for f in P.fns if f.get('local') and f['kind'] == 'item' and f['args'] == 2 and P.types[f['locals'][1]]['s'] == '&mut runtime::Runtime'
             and P.types[f['locals'][2]]['s'].endswith('semantic::program::Program')]
    need(evalf, 'evaluation of a program')
    evids = {f['id'] for f in evalf}
    def hook(I, st, c):
        if c.info.get('id') in evids:
            st.event(('prog', I.term(st, c.args[1]))); 
            st.ctr += 1
            t = I.mk('program', ('n', st.ctr))
            st.event(('progresult', t))
            # the runtime changes
            return [(st, ('s', t, c.dti))]
        if c.args and c.ats[0] is not None and c.name.startswith('std::collections::'):
            t = I.types[c.ats[0]]
            if t['k'] == 'ref' and I.types[t['to']]['s'] == mapty:
                key = None
                if len(c.args) > 1:
                    v = c.args[1]
                    if v[0] == 'r': v = I.read(st, v[1], v[2])
                    elif v[0] == 's' and I.types[v[2]]['k'] == 'ref': v = ('s', I.mk('*', v[1]), v[2])
                    key = I.term(st, v, 12)
                val = I.term(st, c.args[2], 12) if len(c.args) > 2 else None
                op = c.m
                st.ctr += 1
                if c.m in ('get', 'get_mut', 'contains_key', 'remove', 'insert'):
                    tm = I.mk('cache', op, ('n', st.ctr))
                    st.event(('map', op, key, val, tm))
                    r = ('s', tm, c.dti)
                    return [(st, r)]
                st.event(('map', op, key, val, None))
        if c.name == 'syntax::source::Source::from_path':
            st.event(('load', I.term(st, c.args[0], 12)))
        elif c.name.startswith(('std::fs::read', 'std::fs::File')) : st.event(('load', None))
        return None
    I, res = explore_native(E, fn, lambda V: [V.sym('String', 'a0')], hooks=[hook], max_visits=4)
    keys = set(); evals = 0
    for st in res:
        R.count('paths')
        if st.end != 'return': continue
        evs = st.events()
        def bad(k, m): R.bad(k, 'std.import %s; %s' % (m, fmt_path(I, st)))
        ops = [e for e in evs if e[0] == 'map']
        if any(e[1] not in ('get', 'get_mut', 'contains_key', 'remove', 'insert') for e in ops):
            R.notes.append('cache operation not modelled: %s' % [e[1] for e in ops]); R.count('unmodelled_cache_operations'); continue
        for e in ops: keys.add(e[2])
        progs = [i for i, e in enumerate(evs) if e[0] == 'progresult']
        loads = [(i, e) for i, e in enumerate(evs) if e[0] == 'load']
        lookups = [(i, e) for i, e in enumerate(evs) if e[0] == 'map' and e[1] in ('get', 'get_mut', 'contains_key')]
        changes = [(i, e) for i, e in enumerate(evs) if e[0] == 'map' and e[1] in ('insert', 'remove')]
        found = lookups and present(I, st, lookups[0][1])
        # final state of the key
        fin = ('put', changes[-1][1][3]) if changes and changes[-1][1][1] == 'insert' else ('absent',) if changes else ('initial',)
        r = result_of(I, st)
        if len(progs) > 1: bad('twice', 'evaluates the module twice'); continue
        for i, e in loads:
            R.count('loads')
            if e[1] is not None and ops and e[1] != ops[0][2]: bad('source', 'loads another file than the one it caches the value of')
        if progs or loads:
            first = (progs + [i for i, e in loads])[0] if not loads else min(loads[0][0], progs[0] if progs else loads[0][0])
            before = [e for i, e in lookups if i < first]
            if not before: bad('uncached', 'loads a module without looking it up among the modules already imported'); continue
            if present(I, st, before[0]) is not False: bad('reload', 'loads a module again although it is found among the modules already imported'); continue
        if progs:
            evals += 1
            R.count('evaluations')
            t = evs[progs[0]][1]
            if not [e for i, e in changes if i < progs[0] and e[1] == 'insert'] or [e for i, e in changes if i < progs[0]][-1][1] != 'insert':
                bad('circular', 'evaluates a module without marking it as being imported, so that a circular import evaluates it again')
            okt = I.mk('f', I.mk('d', t, ('n', 0)), ('n', 0))
            oc = st.facts.get([k for k in st.facts if I.T.t[k][0] == 'disc' and I.T.t[k][1] == t][0]) if [k for k in st.facts if I.T.t[k][0] == 'disc' and I.T.t[k][1] == t] else None
            if oc is None: bad('ignored', 'does not look at the outcome of evaluating the module')
            elif oc == 0:
                if not (r[0] == 'result' and r[1][0] == 's' and r[1][1] == t) and not (r[0] == 'value' and I.term(st, r[1]) == okt): bad('value', 'does not return the value of the module')
                if fin[0] != 'put' or not within(I, fin[1], okt): bad('nocache', 'does not remember the value of the module')
                if changes and changes[-1][0] < progs[0]: bad('nocache', 'does not remember the value of the module')
            else:
                if r[0] == 'value': bad('swallow', 'returns a value although the module panicked')
                if fin[0] == 'put': bad('failed', 'remembers a module whose evaluation failed')
        elif found is False:
            if r[0] == 'value': bad('none', 'returns a value without evaluating the module')
            if fin[0] == 'put': bad('failed', 'remembers a module that could not be loaded')
        elif found:
            R.count('cached')
            if changes: bad('change', 'changes the cache for a module found there')
            if r[0] == 'value' and not within(I, I.term(st, r[1], 12), lookups[0][1][4]): bad('value', 'returns something else than the cached value')
    if not evals: R.bad('never', 'std.import never evaluates a module')
    R.floor('cached', 1); R.floor('paths', 8)
    if len(keys) > 1: R.bad('keys', 'std.import uses different keys for the module cache: %s' % ', '.join(I.show(k, 6)[:160] for k in keys))
    for k in keys: key_ok(P, R, I, k)
    # other users of the cache
    for f in P.fns:
        if not f.get('local') or '::fmt' in f['n'] or '_DERIVE_' in f['n']: continue
        idx = list(fields).index(maps[0])
        for b in f['bb']:
            for s in list(b[0]) + [b[1]]:
                if touches(P, f, s, idx, rt):
                    R.count('cache_accesses')
                    if not only_from(P, f['id'], {fn['id']}) and f['id'] != fn['id']:
                        R.bad('other:%s' % f['n'], '%s (line %s) accesses the module cache' % (f['n'], b[2]))

def present(I, st, e):
    """does the path know the key to be present? True / False / None"""
    tm = e[4]
    if e[1] == 'contains_key':
        v = st.facts.get(tm)
        return None if v is None else bool(v)
    for k, v in st.facts.items():
        t = I.T.t[k]
        if t[0] == 'disc' and t[1] == tm: return v == 1
    return None

def within(I, t, x, d=12):
    if t is None: return False
    if t == x: return True
    if d <= 0: return False
    for p in I.T.t[t][1:]:
        if isinstance(p, bool): continue
        if isinstance(p, int):
            if within(I, p, x, d - 1): return True
        elif isinstance(p, tuple) and not (p and p[0] == 'n'):
            if any(isinstance(q, int) and not isinstance(q, bool) and within(I, q, x, d - 1) for q in p): return True
    return False

def sub(I, t, pred, d=24, memo=None):
    """subterms satisfying pred"""
    out = []; memo = set() if memo is None else memo
    def go(x, d):
        if d <= 0 or x in memo: return
        memo.add(x)
        k = I.T.t[x]
        if pred(k): out.append(x)
        for p in k[1:]:
            if isinstance(p, bool): continue
            if isinstance(p, int): go(p, d - 1)
            elif isinstance(p, tuple) and not (p and p[0] == 'n'):
                for q in p:
                    if isinstance(q, int) and not isinstance(q, bool): go(q, d - 1)
    go(t, d)
    return out

def call(names): return lambda k: k[0] == 'call' and any(k[1].endswith(n) for n in names)

def key_ok(P, R, I, key):
    R.count('keys')
    def bad(k, m): R.bad(k, 'std.import %s (key: %s)' % (m, I.show(key, 16)[:900]))
    canon = sub(I, key, call(('::canonicalize',)))
    if not canon: bad('canonical', 'does not bring the path of the module to a canonical form before looking it up'); return
    c = canon[0]
    argt = [t for t in sub(I, c, lambda k: k[0] == 'v' and k[1] == 'a0')]
    if not argt: bad('argument', 'does not use its argument to find the module')
    joins = sub(I, c, call(('::push', '::join')))
    ok = False
    for j in joins:
        a = I.T.t[j][2]
        base, arg = a[0], a[1]
        if not sub(I, arg, lambda k: k[0] == 'v' and k[1] == 'a0'): continue
        poss = sub(I, base, lambda k: k[0] == 'ctx' and k[1] == 'pos')
        if not poss: continue
        if not sub(I, base, call(('::pop', '::parent', '::set_file_name', '::ancestors'))): continue
        ok = True
    if not ok: bad('relative', 'does not resolve the path of the module relative to the directory of the importing file')
    # the path of the importer, not another part of its position
    names = [f[0] for f in P.types[need(ty(P, 'runtime::source::SourcePos'), 'SourcePos')]['v'][0]['f']]
    if ok:
        ix = names.index('path') if 'path' in names else None
        got = sub(I, c, lambda k: k[0] == 'f' and I.T.t[k[1]][0] == 'ctx' and I.T.t[k[1]][1] == 'pos')
        if ix is not None and got and all(I.T.t[g][2] != ('n', ix) for g in got): bad('relative', 'does not use the path of the importing file')

def touches(P, f, s, idx, rt):
    """does a statement name field idx of the runtime?"""
    def walk(x):
        if isinstance(x, list):
            # a place: [local, proj...]
            if x and isinstance(x[0], int) and not isinstance(x[0], bool) and any(isinstance(p, list) and p and p[0] == 'f' for p in x[1:]) and x[0] < len(f['locals']):
                t = f['locals'][x[0]]
                for p in x[1:]:
                    if t is None: break
                    if p == '*': t = P.types[t].get('to')
                    elif isinstance(p, list) and p[0] == 'f':
                        if t == rt and p[1] == idx: return True
                        t = p[2] if len(p) > 2 else None
                    else: t = None
            return any(walk(y) for y in x)
        if isinstance(x, dict): return False
        return False
    return walk(s)
