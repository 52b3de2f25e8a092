"""Lexical scoping."""
import interner
from sem import *
from scopes import Scopes
from p04 import child_name, bad_target
import copy

RULE = ('(a) Each operation of the scope stack is explored on explicit stacks (frames of two scopes with one unknown name each, the looked-up name unknown): a lookup must give the slot of the '
        'innermost matching declaration, captured through every frame in between, or an error; a declaration must be an error exactly for a name of the innermost scope and take a fresh slot '
        'otherwise; entering and leaving must add and remove exactly one scope or frame. (b) For every kind of syntax node, on every path of its analysis, the scopes open around each part, the '
        'names declared in them, and their balance at the end are compared with the language rule; keys of a dictionary literal are compared with each other and with nothing else. A name is interned as exactly its own bytes, so two identifiers are the same exactly when they are spelled the same.')
ASSUMPTIONS = ['lookups are explored for one to three nested functions with two scopes each', 'lists of parameters, keys and statements are explored up to two (thorough: three) elements',
               'the analysis of a part leaves the scope stack as it found it (shown for each kind of node, by induction)', 'symbols of the syntax tree come from the same interner']
TECHNIQUE = 'path-sensitive abstract interpretation of the scope stack and of the analyser\'s MIR per node kind'

def known_same(I, st, a, b):
    x, y = sorted((a, b))
    if x == y: return True
    q = I.T.ids.get(('same', x, y))
    if q is not None and q in st.facts: return bool(st.facts[q])
    # equality of the symbols' only field
    for t, v in st.facts.items():
        k = I.T.t[t]
        if k[0] == 'Eq' and {root(I, k[1]), root(I, k[2])} == {a, b}: return bool(v)
    return None

def root(I, t):
    while I.T.t[t][0] in ('f', 'd') and isinstance(I.T.t[t][1], int): t = I.T.t[t][1]
    return t

def contains(I, t, x, depth=30):
    if t == x: return True
    if depth == 0: return False
    for p in I.T.t[t]:
        if isinstance(p, bool): continue
        if isinstance(p, int) and contains(I, p, x, depth - 1): return True
        if isinstance(p, tuple) and not (p and p[0] == 'n'):
            for q in p:
                if isinstance(q, int) and contains(I, q, x, depth - 1): return True
    return False

def consts(I, t, out, depth=30):
    k = I.T.t[t]
    if k[0] == 'bytes' and isinstance(k[1], (bytes, bytearray)): out.append(bytes(k[1]))
    if depth == 0: return out
    for p in k:
        if isinstance(p, bool): continue
        if isinstance(p, int): consts(I, p, out, depth - 1)
        elif isinstance(p, tuple) and not (p and p[0] == 'n'):
            for q in p:
                if isinstance(q, int): consts(I, q, out, depth - 1)
    return out

CUTS = ('truncate', 'pop', 'drain', 'clear', 'remove', 'retain', 'dedup', 'split', 'trim', 'take', 'resize', 'to_lowercase', 'to_ascii', 'swap_remove')

def shortened(I, t, depth=30):
    """is part of the text lost on the way?"""
    k = I.T.t[t]
    if k[0] == 'call' and isinstance(k[1], str) and k[1].split('::')[-1].startswith(CUTS): return True
    if depth == 0: return False
    for p in k:
        if isinstance(p, bool): continue
        for q in (p if isinstance(p, tuple) and not (p and p[0] == 'n') else (p,)):
            if isinstance(q, int) and not isinstance(q, bool) and shortened(I, q, depth - 1): return True
    return False

IDENT = set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')

def stack_rules(P, R, X, tier):
    def bad(role, w, m, I, st): R.bad('stack:%s:%s' % (role, w), 'scope operation %s (%s): %s; %s' % (role, X.role[role]['n'], m, fmt_path(I, st)))
    def paths(role, **kw):
        I, res = X.run(role, **kw)
        s0 = State()
        before = X.frames(I, s0)
        for st in res:
            R.count('stack_paths')
            if st.end in ('diverge', 'rpanic'):
                if role in ('resolve',): continue
                bad(role, 'panics', 'does not return on a well-formed stack', I, st); continue
            if st.end != 'return': bad(role, 'unfollowed', 'could not be followed (%s)' % st.end, I, st); continue
            after = X.frames(I, st)
            yield I, st, copy.deepcopy(before), after
    depths = (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3)
    for n, k in [(1, 1), (1, 5), (2, 3)]:
        for I, st, b, a in paths('declare', nframes=n, topscopes=k):
            top = b[-1]
            inner = I.mk('key', ('n', '%d%d' % (n - 1, k - 1)))
            if known_same(I, st, inner, I.mk('x')): continue
            top['scopes'][-1].append((I.mk('x'), top['slots'])); s = top['slots']; top['slots'] += 1
            if st.ret[0] != 'a' or st.ret[2] != 0 or X.num(I, st, st.ret[3][0]) != s or a != b: bad('declare', 'slot', 'a new name does not get a fresh slot of the current function in the innermost scope', I, st)
    for n in depths:
        for I, st, b, a in paths('enter_frame', nframes=n):
            if a != b + [{'slots': 0, 'captures': [], 'self': None, 'scopes': [[]]}]: bad('enter_frame', 'effect', 'does not add exactly one empty frame with one empty scope', I, st)
        for I, st, b, a in paths('enter_block', nframes=n):
            b[-1]['scopes'].append([])
            if a != b: bad('enter_block', 'effect', 'does not add exactly one empty scope to the current function', I, st)
        for I, st, b, a in paths('exit_block', nframes=n):
            b[-1]['scopes'].pop()
            if a != b: bad('exit_block', 'effect', 'does not remove exactly the innermost scope of the current function', I, st)
        for I, st, b, a in paths('exit_frame', nframes=n, topscopes=1, caps=((3, 7), (4, 8)), selfs=True):
            top = b.pop()
            if a != b: bad('exit_frame', 'effect', 'does not remove exactly the innermost frame', I, st)
            info = st.ret
            if info[0] != 'a': bad('exit_frame', 'info', 'the frame information could not be determined', I, st); continue
            fs = {f[0]: v for f, v in zip(P.types[X.info_ti]['v'][0]['f'], info[3])}
            vals = []
            for nm, v in fs.items():
                while v[0] == 'r': v = I.read(st, v[1], v[2])
                if v[0] == 'a' and v[1] == X.slot_ti: vals.append(('slots', X.num(I, st, v)))
                elif v[0] == 'a' and v[2] in ('vec', 'array', 'list'): vals.append(('captures', [X.cap(I, st, c) for c in v[3]]))
                elif v[0] == 'a' and v[2] == 1: vals.append(('self', X.num(I, st, v[3][0])))
                else: vals.append((nm, '?'))
            want = [('slots', top['slots']), ('captures', top['captures']), ('self', top['self'])]
            if sorted(vals, key=str) != sorted(want, key=str): bad('exit_frame', 'info', 'the frame information does not describe the frame (%s instead of %s)' % (vals, want), I, st)
        for selfs in (None, True):
            for I, st, b, a in paths('self', nframes=n, selfs=selfs):
                top = b[-1]
                want = top['self'] if selfs else top['slots']
                if not selfs: top['self'] = top['slots']; top['slots'] += 1
                if a != b or X.num(I, st, st.ret) != want: bad('self', 'slot', 'self does not get one slot of the current function, its own and always the same', I, st)
        for I, st, b, a in paths('declare', nframes=n):
            x = I.mk('x')
            dup = known_same(I, st, I.mk('key', ('n', '%d1' % (n - 1))), x)
            other = [(t, v) for t, v in st.facts.items() if I.T.t[t][0] == 'same' and I.mk('key', ('n', '%d1' % (n - 1))) not in I.T.t[t][1:]]
            if dup is None: bad('declare', 'unchecked', 'does not compare the name with the names of the innermost scope', I, st); continue
            if other: bad('declare', 'outer', 'depends on the names of an outer scope', I, st); continue
            if dup:
                if st.ret[2] != 1 or a != b: bad('declare', 'duplicate', 'a name declared twice in one scope is accepted or changes the scope', I, st)
            else:
                top = b[-1]
                top['scopes'][-1].append((x, top['slots'])); s = top['slots']; top['slots'] += 1
                if st.ret[0] != 'a' or st.ret[2] != 0 or X.num(I, st, st.ret[3][0]) != s or a != b: bad('declare', 'slot', 'a new name does not get a fresh slot of the current function in the innermost scope', I, st)
        for I, st, b, a in paths('resolve', nframes=n):
            R.count('lookups')
            x = I.mk('x')
            order = [(i, j) for i in range(n - 1, -1, -1) for j in (1, 0)]
            found = None; undecided = False
            for i, j in order:
                r = known_same(I, st, I.mk('key', ('n', '%d%d' % (i, j))), x)
                if r is None: undecided = True; break
                if r: found = (i, j); break
            if undecided: bad('resolve', 'order', 'the innermost declarations are not considered first', I, st); continue
            if found is None:
                if st.ret[2] != 1: bad('resolve', 'undeclared', 'a name that is not declared is accepted', I, st)
                elif a != b: bad('resolve', 'undeclared', 'a failed lookup changes the scopes', I, st)
                continue
            cur = 10 * found[0] + found[1]
            ok = True
            for i in range(found[0] + 1, n):
                new = [e for e in a[i]['scopes'][0] if e not in b[i]['scopes'][0]] if isinstance(a[i]['scopes'][0], list) else [None]
                key = I.mk('key', ('n', '%d0' % i))
                closed = [t for t, v in st.facts.items() if I.T.t[t][0] == 'same' and key in I.T.t[t][1:] and x not in I.T.t[t][1:]]
                hit = [t for t in closed if st.facts[t]]
                if hit: cur = 10 * i; sym = [q for q in I.T.t[hit[0]][1:] if q != key][0]; 
                else:
                    if len(new) != 1 or not new[0]: ok = False; break
                    sym = new[0][0]
                    b[i]['captures'].append({'from': cur, 'to': b[i]['slots']}); b[i]['scopes'][0].append((sym, b[i]['slots']))
                    cur = b[i]['slots']; b[i]['slots'] += 1
                bs = b''.join(consts(I, sym, []))
                if sym == x or not contains(I, sym, x) or not (set(bs) - IDENT) or shortened(I, sym): bad('resolve', 'capture-name', 'the name under which a captured variable is kept is not unique to the variable or can clash with an identifier', I, st)
            if not ok or a != b: bad('resolve', 'capture', 'a name of an enclosing function is not captured once through each function in between', I, st)
            elif st.ret[2] != 0 or X.num(I, st, st.ret[3][0]) != cur: bad('resolve', 'slot', 'a declared name does not refer to the slot of its innermost declaration', I, st)

def scopes_of(X, I, st, R, lb):
    """scopes opened by the node: [(sub event, snapshot of the open scopes)], names declared at the node's own level, balanced?"""
    stack = [('base', [])]
    snaps = []; ops = []
    ok = True
    for e in st.events():
        if e[0] == 'scope':
            r = e[1]
            if r == 'enter_block': stack.append(('block', []))
            elif r == 'enter_frame': stack.append(('frame', []))
            elif r in ('exit_block', 'exit_frame'):
                if len(stack) == 1 or stack[-1][0] != r[5:]: ok = False
                else: stack.pop()
            elif r == 'declare': stack[-1][1].append(e[2][0])
            ops.append((r, e, len(stack)))
        elif e[0] == 'sub': snaps.append((e, [(k, tuple(d)) for k, d in stack], dict(index=len(ops))))
    if len(stack) != 1: ok = False
    return snaps, stack[0][1], ok, ops

def check(P, R, tier):
    interner.check(P, R)
    X = Scopes(P)
    for r in ('enter_frame', 'exit_frame', 'enter_block', 'exit_block', 'declare', 'resolve', 'self'): need(X.role.get(r), 'scope operation ' + r)
    stack_rules(P, R, X, tier)
    S = Sem(P, X)
    root_rules(P, R, S, X)
    ns = (0, 1, 2, 3) if tier == 'thorough' else (0, 1, 2)
    own = []          # scopes a block opens itself
    for label, kind, v, n in S.shapes(ns):
        if kind != 'Block': continue
        I, res = S.explore(kind, v, n)
        for st in res:
            for e, snap, _ in scopes_of(X, I, st, R, label)[0]: own.append(snap[1:])
    inner = own[0] if own else []
    for o in own:
        if o != inner: R.bad('block:scopes', 'the statements of a block are not all analysed in the same scope')
    for label, kind, v, n in S.shapes(ns):
        I, res = S.explore(kind, v, n, sub=command_head(S, P) if kind == 'Command' else None)
        R.count('nodes')
        N = lambda s: I.mk('n', s)
        for st in res:
            if st.end != 'return': continue
            R.count('paths')
            def bad(w, m): R.bad('node:%s:%s' % (label.split('/')[0], w), 'analysis of %s: %s; %s' % (label, m, fmt_path(I, st)))
            snaps, base, ok, ops = scopes_of(X, I, st, R, label)
            if not ok: bad('balance', 'the scopes it opens are not closed again, in order')
            ill = lambda nm: st.facts.get(I.mk('ill', N(nm))) == 1
            want_base = [N('identifier')] if (kind, v) == ('Statement', 'Let') else []
            if base != want_base: bad('declares', 'declares %d names in the scope around it instead of %d' % (len(base), len(want_base)) if len(base) != len(want_base) else 'declares another name than its own')
            for e, snap, at in snaps:
                nm = child_name(I, e)
                R.count('parts')
                sc = snap[1:] + (inner if e[1] == 'Block' else [])
                if (kind, v) == ('Literal', 'Function') and e[1] == 'Block':
                    params = [N('params[%d].0' % i) for i in range(n) if not ill('params[%d].0' % i)]
                    if [k for k, d in sc] != ['frame'] or list(sc[0][1]) != params: bad('function', 'the body is not analysed in a frame of its own that declares exactly the parameters, in order')
                elif kind == 'Statement' and v == 'For' and e[1] == 'Block':
                    want = [] if ill('identifier') else [N('identifier')]
                    if not sc or any(k != 'block' for k, d in sc) or list(sc[-1][1]) != want or any(d for k, d in sc[:-1]): bad('for', 'the body is not analysed in a scope of its own that declares exactly the loop variable')
                elif (kind == 'Statement' and v == 'While' or kind == 'Expr' and v == 'If') and e[1] == 'Block':
                    if not sc or any(k != 'block' or d for k, d in sc): bad('scope:' + nm, 'its %s is not analysed in an empty scope of its own' % nm)
                elif kind == 'Block':
                    if any(d for k, d in sc): bad('scope', 'a statement is analysed in a scope with other names')
                else:
                    if sc: bad('scope:' + nm, 'its %s is analysed in a scope of its own' % nm)
                if (kind, v) == ('Statement', 'Let') and list(snap[0][1]) != [N('identifier')]: bad('order', 'the initial value is analysed before its name is declared')
            lookups = [(o, e) for o, e, d in ops if o == 'resolve']
            res_ok = [e for o, e in lookups if vnames(I, st, ('s', e[3], e[4]), e[4]) == {'Ok'}]
            want = None
            acc = S.accepted(I, st)
            if (kind, v) in (('Expr', 'Identifier'), ('ArgUnit', 'Dollar')): want = N('identifier' if kind == 'Expr' else 'symbol')
            elif (kind, v) == ('Statement', 'Assign'):
                l = N('left'); lv = vnames(I, st, ('s', l, S.ti['Expr']), S.ti['Expr'])
                if lv == {'Identifier'}:
                    vi = [x['n'] for x in P.types[S.ti['Expr']]['v']].index('Identifier')
                    fi = [f[0] for f in P.types[S.ti['Expr']]['v'][vi]['f']].index('identifier')
                    want = I.mk('f', I.mk('d', l, ('n', vi)), ('n', fi))
            if want is None and lookups: bad('lookup', 'looks up a name although it is none')
            if want is not None and acc:
                R.count('names')
                if len(lookups) != 1 or lookups[0][1][2][0] != want: bad('lookup', 'the name looked up is not the one written')
                elif not res_ok: bad('unchecked', 'a name is accepted although the lookup may have failed')
                else:
                    slot = I.mk('f', I.mk('d', lookups[0][1][3], ('n', 0)), ('n', 0))
                    if slot not in slots_of(I, st, X): bad('slot', 'the program does not refer to the slot the name was resolved to')
            if (kind, v) == ('Expr', 'Self_') and acc:
                sl = [e[3] for o, e, d in ops if o == 'self']
                if len(sl) != 1 or sl[0] not in slots_of(I, st, X): bad('self', 'self does not refer to the slot of self')
            if acc and (kind, v) in (('Statement', 'Let'), ('Statement', 'For')):
                sl = [I.mk('f', I.mk('d', e[3], ('n', 0)), ('n', 0)) for o, e, d in ops if o == 'declare']
                R.count('names')
                if len(sl) != 1 or sl[0] not in slots_of(I, st, X): bad('slot', 'the program does not store to the slot of the declared name')
            # a failed declaration or lookup is reported and rejects the node
            for o, e, d in ops:
                if o not in ('declare', 'resolve'): continue
                vs = vnames(I, st, ('s', e[3], e[4]), e[4])
                if acc and vs != {'Ok'}: bad('error', 'is accepted although a %s may have failed' % ('declaration' if o == 'declare' else 'lookup'))
                if vs == {'Err'} and not any(contains(I, I.term(st, r[3]), e[3]) for r in S.reports(I, st)): bad('unreported', 'a failed %s is not reported' % ('declaration' if o == 'declare' else 'lookup'))
            # shared sets are left as found
            for f in S.afields:
                t = P.types[f[1]]
                if t['k'] == 'ref' and 'HashSet<' in P.types[t['to']]['s']:
                    if I.term(st, I.read(st, ('n', 'an_' + f[0]), ())) != I.mk('an', f[0]): bad('keys', 'changes the set of keys of the dictionary literal around it')
            if (kind, v) == ('Literal', 'Dict'):
                keys = [N('0[%d].0.0' % i) for i in range(n)]
                R.count('dicts')
                dup = None
                for i in range(n):
                    for j in range(i):
                        r = known_same(I, st, keys[i], keys[j])
                        if r: dup = (j, i)
                        if r is None and acc: bad('keys:unchecked', 'keys %d and %d are accepted without comparing them' % (j, i))
                if dup:
                    if acc: bad('keys:duplicate', 'equal keys are accepted')
                    elif not S.reports(I, st): bad('keys:unreported', 'equal keys are not reported')
                elif not acc and S.other_cause(I, st) is None: bad('keys:rejected', 'is rejected although its keys differ')
                elif S.reports(I, st): bad('keys:reported', 'an error is reported although its keys differ')
    R.floor('parts', 60); R.floor('names', 5); R.floor('lookups', 15); R.floor('stack_paths', 25); R.floor('dicts', 5)

def slots_of(I, st, X):
    """terms of the slots in the result"""
    out = []
    def go(v, d=0):
        if d > 8: return
        if v[0] == 's' and v[2] == X.slot_ti: out.append(v[1])
        elif v[0] == 'a': [go(x, d + 1) for x in v[3]]
        elif v[0] == 'r':
            w = I.read(st, v[1], v[2]); go(w, d + 1)
        elif v[0] == 's':
            out.append(v[1])
    go(st.ret)
    return out

def command_head(S, P, lens={}):
    def head(I, nm, ti):
        v = ('a', ti, 0, tuple(S.build(I, f[1], 'head.' + f[0], lens.get(f[0], 1)) for f in P.types[ti]['v'][0]['f']))
        I.kids[I.term(State(), v)] = ('head', 'BasicCommand')
        return v
    return {'head': head}

def root_rules(P, R, S, X):
    """the whole source is analysed in one frame that declares std first"""
    fs = [f for f in P.fns if f.get('local') and f['kind'] == 'item' and f['args'] >= 1 and P.types[f['locals'][1]]['s'] == 'syntax::ast::Ast'
          and P.types[f['locals'][0]]['s'].startswith('std::result::Result<semantic::program::Program')]
    for f in need(fs, 'the analysis of a whole source'):
        I = Interp(P, hooks=[S.hook, ident_copy], opaque=lambda g: '::fmt' in g['n'] or g['n'].startswith(('symbol::', 'semantic::error::Error::')), max_visits=3, max_depth=30)
        I.kids = {}
        for st in I.run(f, [('s', I.mk('arg', ('n', i)), f['locals'][i]) for i in range(1, f['args'] + 1)]):
            if st.end != 'return': continue
            R.count('roots')
            snaps, base, ok, ops = scopes_of(X, I, st, R, 'root')
            def bad(w, m): R.bad('root:' + w, 'analysis of a source: %s; %s' % (m, fmt_path(I, st)))
            if not ok or base: bad('balance', 'its scopes are not balanced')
            bl = [s for s in snaps if s[0][1] == 'Block']
            if len(bl) != 1: bad('blocks', 'the source is analysed %d times' % len(bl)); continue
            sc = bl[0][1][1:]
            if len(sc) != 1 or sc[0][0] != 'frame' or len(sc[0][1]) != 1 or not (b'std' in consts(I, sc[0][1][0], [])): bad('std', 'the source is not analysed in one frame that declares exactly std')
