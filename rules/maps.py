"""Hash maps with known entries: a lookup is decided entry by entry, each outcome a path of its own.
A map is kept as a list of (key, value) pairs under the map's type."""
from lib import *

def same(I, st, a, b):
    """fork on the equality of two keys: [(state, bool)]"""
    x, y = sorted((I.term(st, a), I.term(st, b)))
    if x == y: return [(st, True)]
    kx, ky = I.T.t[x], I.T.t[y]
    if kx[0] == 'k' and ky[0] == 'k': return [(st, kx == ky)]
    kt = getattr(I, 'keytext', None)
    if kt is not None:
        p, q = kt(x), kt(y)
        if p is not None and q is not None: return [(st, p == q)]
    q = I.mk('same', x, y)
    r = st.facts.get(q)
    if r is not None: return [(st, bool(r))]
    if (x, y) in getattr(I, 'distinct', ()): return [(st, False)]
    s2 = st.copy(); s2.facts[q] = 1; st.facts[q] = 0
    return [(s2, True), (st, False)]

def find(I, st, pairs, key):
    """[(state, index or None)]"""
    out = []
    cur = [st]
    for i, p in enumerate(pairs):
        nxt = []
        for s in cur:
            for s2, r in same(I, s, p[3][0], key):
                if r: out.append((s2, i))
                else: nxt.append(s2)
        cur = nxt
    return out + [(s, None) for s in cur]

def maps(I, st, c):
    P = I.P
    def is_map(ti): return ti is not None and P.types[ti]['s'].startswith('std::collections::HashMap<')
    if is_map(c.dti) and c.m in ('default', 'new', 'with_capacity') and len(c.args) <= 1 and not c.local: return [(st, ('a', c.dti, 'vec', ()))]
    if not c.args or c.ats[0] is None: return None
    t = P.types[c.ats[0]]
    def val(x): return I.read(st, x[1], x[2]) if x[0] == 'r' else x
    def at(obj, path, i, mti):
        a = P.types[mti]['a']
        return ('r', obj, path + (('x', ('k', i, I.usize_ti), None), ('f', 1, a[1])))
    if t['k'] == 'ref' and is_map(t['to']):
        obj, path = I.deref(st, c.args[0], t['to'])
        v = I.read(st, obj, path)
        if v[0] != 'a' or v[2] != 'vec': return None
        mti = t['to']
        if c.m == 'len': return [(st, ('k', len(v[3]), I.usize_ti))]
        if c.m == 'is_empty': return [(st, I.boolv(not v[3]))]
        if c.m == 'clear': I.write(st, obj, path, ('a', mti, 'vec', ())); return [(st, I.unit())]
        if c.m in ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter') and c.dti is not None:
            a = P.types[mti]['a']
            def kv(i):
                return ('r', obj, path + (('x', ('k', i, I.usize_ti), None), ('f', 0, a[0]))), ('r', obj, path + (('x', ('k', i, I.usize_ti), None), ('f', 1, a[1])))
            sel = {'keys': lambda i: kv(i)[0], 'values': lambda i: kv(i)[1], 'values_mut': lambda i: kv(i)[1]}.get(c.m, lambda i: ('a', None, 0, kv(i)))
            return [(st, ('a', c.dti, 'list', tuple(sel(i) for i in range(len(v[3])))))]
        if c.m in ('get', 'get_mut', 'contains_key', 'insert', 'remove', 'entry'):
            key = c.args[1] if c.m in ('insert', 'entry') else val(c.args[1])
            out = []
            for s, i in find(I, st, v[3], key):
                if c.m in ('get', 'get_mut'): r = ('a', c.dti, 1, (at(obj, path, i, mti),)) if i is not None else ('a', c.dti, 0, ())
                elif c.m == 'contains_key': r = I.boolv(i is not None)
                elif c.m == 'insert':
                    els = list(v[3])
                    if i is None: els.append(('a', None, 0, (key, c.args[2]))); r = ('a', c.dti, 0, ())
                    else: r = ('a', c.dti, 1, (els[i][3][1],)); els[i] = ('a', None, 0, (els[i][3][0], c.args[2]))
                    I.write(s, obj, path, ('a', mti, 'vec', tuple(els)))
                elif c.m == 'remove':
                    r = ('a', c.dti, 0, ())
                    if i is not None:
                        r = ('a', c.dti, 1, (v[3][i][3][1],))
                        I.write(s, obj, path, ('a', mti, 'vec', v[3][:i] + v[3][i + 1:]))
                else:
                    vi = [x['n'] for x in P.types[c.dti]['v']].index('Vacant' if i is None else 'Occupied')
                    et = P.types[c.dti]['v'][vi]['f'][0][1]
                    r = ('a', c.dti, vi, (('a', et, 'entry', (('r', obj, path), ('k', -1 if i is None else i, I.usize_ti), key, ('k', mti, I.usize_ti))),))
                out.append((s, r))
            return out
    if is_map(c.ats[0]) and c.m in ('into_iter', 'into_keys', 'into_values') and c.args[0][0] == 'a' and c.args[0][2] == 'vec' and c.dti is not None:
        sel = {'into_keys': lambda p: p[3][0], 'into_values': lambda p: p[3][1]}.get(c.m, lambda p: p)
        return [(st, ('a', c.dti, 'list', tuple(sel(p) for p in c.args[0][3])))]
    e = c.args[0]
    if e[0] == 'r': e = I.read(st, e[1], e[2])
    if e[0] == 'a' and isinstance(e[2], int) and e[3] and e[3][0][0] == 'a' and e[3][0][2] == 'entry' and c.m in ('or_insert', 'or_default', 'key'): e = e[3][0]
    if e[0] == 'a' and e[2] == 'entry':
        ref, i, key, mti = e[3]
        mti = mti[1]
        m = I.read(st, ref[1], ref[2])
        if c.m in ('get', 'get_mut', 'into_mut'): return [(st, at(ref[1], ref[2], i[1], mti))]
        if c.m in ('insert', 'or_insert', 'insert_entry'):
            els = list(m[3])
            if i[1] >= 0:
                if c.m == 'or_insert': return [(st, at(ref[1], ref[2], i[1], mti))]
                old = els[i[1]][3][1]
                els[i[1]] = ('a', None, 0, (els[i[1]][3][0], c.args[1]))
                I.write(st, ref[1], ref[2], ('a', mti, 'vec', tuple(els)))
                return [(st, old)]
            els.append(('a', None, 0, (key, c.args[1])))
            I.write(st, ref[1], ref[2], ('a', mti, 'vec', tuple(els)))
            return [(st, at(ref[1], ref[2], len(els) - 1, mti))]
    return None
