"""Counts which the exploration of loops does not reach: no code a check has gone through may treat a particular count specially."""

COUNTS = ('usize', 'u16', 'u32', 'u64')
METHODS = ('take', 'truncate', 'chunks', 'chunks_exact', 'windows', 'step_by', 'skip', 'nth', 'min', 'max', 'clamp', 'split_off', 'split_at', 'first_chunk')
LIMIT = 8

def value(P, o, defs, depth=4):
    """(constant, name of its type) or None"""
    if o[0] == 'k':
        v = o[1].get('v')
        if v is None or o[1].get('t') is None: return None
        try: return int(v), P.types[o[1]['t']]['s']
        except ValueError: return None
    if o[0] in ('m', 'c') and len(o[1]) == 1 and depth:
        d = defs.get(o[1][0])
        if d and len(d) == 1 and d[0][0] == 'use': return value(P, d[0][1], defs, depth - 1)
        if d and len(d) == 1 and d[0][0] == 'cast':
            for x in d[0][1:]:
                if isinstance(x, list) and x and x[0] in ('k', 'm', 'c'): return value(P, x, defs, depth - 1)
    return None

def special(P, f):
    """[(line, what)] of the places where the function compares a count with a constant beyond the limit"""
    defs = {}
    asserted = set()
    for b in f['bb']:
        for s in b[0]:
            if s[0] == '=' and len(s[1]) == 1: defs.setdefault(s[1][0], []).append(s[2])
        if b[1][0] == 'assert':
            o = b[1][1]
            if isinstance(o, list) and o and o[0] in ('m', 'c') and len(o[1]) == 1: asserted.add(o[1][0])
    out = []
    for b in f['bb']:
        for s in b[0]:
            if s[0] != '=' or s[2][0] != 'bin': continue
            op, x, y, ti = s[2][1:5]
            if P.types[ti]['s'] not in COUNTS or (len(s[1]) == 1 and s[1][0] in asserted): continue
            for o in (x, y):
                k = value(P, o, defs)
                if k is None: continue
                if op in ('Lt', 'Le', 'Gt', 'Ge') and k[0] > LIMIT and k[0] < 1 << 31: out.append((s[3], 'compares a count with %d' % k[0]))
                if op in ('Eq', 'Ne') and k[0] > 16 and k[0] < 1 << 31: out.append((s[3], 'compares a count with %d' % k[0]))
                if op == 'Rem' and o is y and k[0] > 2: out.append((s[3], 'takes a count modulo %d' % k[0]))
        t = b[1]
        if t[0] == 'switch' and isinstance(t[4], int) and P.types[t[4]] and P.types[t[4]]['s'] in COUNTS:
            big = [int(v) for v, _ in t[2] if int(v) > 16]
            if big: out.append((b[2] if len(b) > 2 else 0, 'compares a count with %d' % big[0]))
        if t[0] == 'call' and t[1].get('m') in METHODS and t[1].get('id') is None:
            for o in t[2]:
                k = value(P, o, defs)
                if k and k[1] in COUNTS and LIMIT < k[0] < 1 << 31: out.append((b[2] if len(b) > 2 else 0, 'calls %s with the count %d' % (t[1]['m'], k[0])))
    return out

def check(P, R, seen):
    n = 0
    for fid in sorted(seen):
        f = P.fns[fid]
        if not f.get('local'): continue
        n += 1
        for line, what in special(P, f)[:2]:
            R.bad('count:%s' % f['n'], '%s (%s:%s) %s: beyond the counts for which the loops were followed it may do something else' % (f['n'], f['file'], line, what))
    R.count('functions_without_special_counts', n)
