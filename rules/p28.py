"""The analysed program is the written one: translation from the syntax tree."""
from sem import *
from scopes import Scopes
from p04 import child_name
from p05 import command_head, root

RULE = ('For every kind of syntax node, explored with its parts opaque: on every path that accepts the node, each of its parts has been analysed exactly once, and the program node is the '
        'counterpart of the syntax node with the result of every part, every name\'s slot, every operator, literal and position in the place that corresponds to it, lists in order and complete. '
        'The conversions of operators and block kinds are explored on every variant; the program of a source consists of its statements and the slots of its own frame.')
ASSUMPTIONS = ['the syntax tree and the program use the same names for corresponding variants and fields (let is an assignment, self a variable, an expansion a part of an argument)',
               'lists are explored up to two (thorough: three) elements']
TECHNIQUE = 'path-sensitive abstract interpretation of the analyser\'s MIR per node kind, comparing provenance terms of the result'

RENAMED = {('Statement', 'Let'): 'Assign', ('Expr', 'Self_'): 'Identifier'}
COUNTERPART = {'ArgExpansion': 'ArgPart'}

class Mismatch(Exception): pass

class Tr:
    def __init__(self, S, I, st):
        self.S = S; self.I = I; self.st = st; self.P = S.P
        self.sub = {}
        for e in S.subs(I, st): self.sub.setdefault(e[2], []).append(e)
        self.used = set()
    def deref(self, v):
        while v[0] == 'r': v = self.I.read(self.st, v[1], v[2])
        return v
    def payload(self, t):
        """term of the program part made of the syntax part t"""
        es = self.sub.get(t, [])
        if len(es) != 1: raise Mismatch('%s is analysed %s' % (self.nm(t), 'more than once' if es else 'by nothing'))
        self.used.add(t)
        return self.I.mk('f', self.I.mk('d', es[0][4], ('n', 1)), ('n', 0))
    def nm(self, t): return (self.I.kids.get(t) or (self.I.show(t, 4),))[0]
    def is_payload(self, v, t, what):
        want = self.payload(t)
        v = self.deref(v)
        got = self.I.term(self.st, v)
        if got == self.I.mk('*', want) : return
        if got != want: raise Mismatch('%s of the program is not what %s was analysed to' % (what, self.nm(t)))
    def part(self, v, a, ati, what):
        """program value v stands for syntax part a of type ati"""
        S, I, st, P = self.S, self.I, self.st, self.P
        t = P.types[ati]
        if ati in S.name: return self.is_payload(v, I.term(st, a), what)
        if t.get('box') and t.get('a') and t['a'][0] in S.name: return self.is_payload(v, I.mk('*', I.term(st, a)), what)
        if S.is_list(ati):
            av = self.deref(a); v = self.deref(v)
            if v[0] != 'a' or len(v[3]) != len(av[3]): raise Mismatch('%s does not have as many elements as written' % what)
            et = P.types[t['a'][0]]['e']
            for i, (x, y) in enumerate(zip(v[3], av[3])): self.part(x, y, et, '%s[%d]' % (what, i))
            return
        if t['k'] == 'tuple':
            v = self.deref(v)
            av = a
            # (name, position) pairs keep the name
            if v[0] != 'a' or isinstance(v[2], str): return self.part(v, av[3][0], t['f'][0], what)
            if len(v[3]) != len(av[3]): raise Mismatch('%s has another shape' % what)
            for i, (x, y) in enumerate(zip(v[3], av[3])): self.part(x, y, t['f'][i], '%s.%d' % (what, i))
            return
        got = I.term(st, v)
        want = I.term(st, a)
        if got == want or got == I.mk('conv', want): return
        v2 = self.deref(v)
        if t['k'] == 'enum' and v2[0] == 'a' and isinstance(v2[2], int) and a[0] == 's':
            names = vnames(I, st, a, ati)
            mine = P.types[v2[1]]['v'][v2[2]]['n']
            if names != {mine}: raise Mismatch('%s is %s where the source has %s' % (what, mine, '/'.join(sorted(names))))
            vi = list(variants_of(I, st, a, ati))[0]
            for i, f in enumerate(t['v'][vi]['f']):
                self.part(v2[3][i], ('s', I.mk('f', I.mk('d', a[1], ('n', vi)), ('n', i)), f[1]), f[1], '%s.%s' % (what, f[0]))
            return
        if got == I.mk('&', want): return
        raise Mismatch('%s is not the one written' % what)

def slots(S, I, st):
    return {r: [I.mk('f', I.mk('d', e[3], ('n', 0)), ('n', 0)) if S.P.types[e[4]]['s'].startswith('std::result') else e[3] for e in st.events() if e[0] == 'scope' and e[1] == r] for r in ('declare', 'resolve', 'self', 'exit_frame')}

def node(S, I, st, kind, variant, n, tr, v):
    P = S.P
    ast_t = P.types[S.ti[kind]]
    avi = I.node[2]
    afs = ast_t['v'][avi]['f']
    pk = COUNTERPART.get(kind, kind)
    pti = S.prog[pk]
    v = tr.deref(v)
    if v[0] != 'a' or not isinstance(v[2], int): raise Mismatch('the result could not be determined')
    if v[1] != pti: raise Mismatch('the result is no ' + pk)
    pv = P.types[pti]['v'][v[2]]
    fields = dict(zip([f[0] for f in pv['f']], v[3]))
    amap = {f[0]: (x, f[1]) for f, x in zip(afs, I.node[3])}
    if kind == 'Command': return command(S, I, st, tr, pv['n'], fields, amap)
    want = RENAMED.get((kind, variant), variant)
    if P.types[pti]['k'] == 'enum' and want is not None and pv['n'] != want: raise Mismatch('it becomes %s' % pv['n'])
    sl = slots(S, I, st)
    rest = dict(amap)
    for nm, x in fields.items():
        if nm == 'slot_ix':
            t = I.term(st, tr.deref(x))
            w = sl['self'] if (kind, variant) == ('Expr', 'Self_') else sl['declare'] if kind == 'Statement' else sl['resolve']
            if w != [t]: raise Mismatch('the slot is not the one of the name')
            rest.pop('identifier', None); rest.pop('symbol', None)
            continue
        if (kind, variant) == ('Statement', 'Let') and nm == 'left':
            x = tr.deref(x)
            lv = P.types[S.prog['Lvalue']]['v'][x[2]]
            fs = dict(zip([f[0] for f in lv['f']], x[3]))
            if lv['n'] != 'Identifier' or [I.term(st, fs['slot_ix'])] != sl['declare']: raise Mismatch('the variable initialised is not the one declared')
            rest.pop('identifier', None); continue
        if (kind, variant) == ('Statement', 'Let') and nm == 'right':
            tr.part(x, *amap['init'], 'the initial value'); rest.pop('init', None); continue
        if (kind, variant) == ('Statement', 'Assign') and nm == 'left':
            target(S, I, st, tr, x, amap['left'][0], sl); rest.pop('left', None); continue
        if (kind, variant) == ('Literal', 'Function') and nm == 'params':
            x = tr.deref(x)
            y = x
            if y[0] != 'k' or y[1] != n: raise Mismatch('the number of parameters is not %d' % n)
            rest.pop('params', None); continue
        if (kind, variant) == ('Literal', 'Function') and nm == 'frame_info':
            if [I.term(st, x)] != sl['exit_frame']: raise Mismatch('the frame is not the one of the function')
            continue
        if nm not in amap:
            if len(fields) == 1 and len(amap) == 1: tr.part(x, *list(amap.values())[0], nm); rest = {}; continue
            raise Mismatch('field %s has no counterpart in the source' % nm)
        tr.part(x, *amap[nm], nm)
        rest.pop(nm, None)
    lost = [f for f, (x, ti) in rest.items() if ti in S.name or S.is_list(ti) or (P.types[ti].get('box') and f != 'pos')]
    if lost: raise Mismatch('%s of the source is not part of the program' % ', '.join(lost))

def target(S, I, st, tr, x, left, sl):
    P = S.P
    x = tr.deref(x)
    names = vnames(I, st, left, S.ti['Expr'])
    t = left[1]
    if x[0] != 'a': raise Mismatch('the assigned place could not be determined')
    lv = P.types[S.prog['Lvalue']]['v'][x[2]]
    if names != {lv['n']}: raise Mismatch('the assigned place is %s where the source has %s' % (lv['n'], '/'.join(sorted(names))))
    fs = dict(zip([f[0] for f in lv['f']], x[3]))
    et = P.types[S.ti['Expr']]
    vi = [v['n'] for v in et['v']].index(lv['n'])
    for i, f in enumerate(et['v'][vi]['f']):
        y = ('s', I.mk('f', I.mk('d', t, ('n', vi)), ('n', i)), f[1])
        if f[0] == 'identifier':
            if [I.term(st, fs['slot_ix'])] != sl['resolve']: raise Mismatch('the variable assigned is not the one written')
        else: tr.part(fs[f[0]], y, f[1], f[0])

def command(S, I, st, tr, vn, fields, amap):
    head, hti = amap['head']
    hf = {f[0]: (x, f[1]) for f, x in zip(S.P.types[hti]['v'][0]['f'], head[3])}
    if vn == 'Builtin':
        if tr.deref(amap['tail'][0])[3] or tr.deref(hf['redirections'][0])[3]: raise Mismatch('its pipeline or redirections are lost')
        for nm in ('arguments', 'abort_on_error', 'pos'): tr.part(fields[nm], *hf[nm], nm)
        b = I.term(st, fields['program'])
        pt = I.mk('builtin', I.term(st, hf['program'][0]))
        if b != I.mk('f', I.mk('d', pt, ('n', 0)), ('n', 0)): raise Mismatch('the built-in is not the one named')
        if tr.deref(hf['env'][0])[3]: raise Mismatch('its environment variables are not part of the program')
    else:
        tr.is_payload(fields['head'], I.term(st, head), 'the first command')
        tr.part(fields['tail'], *amap['tail'], 'the pipeline')

def conversions(P, R):
    for im in [f for f in P.fns if f.get('local') and f['kind'] == 'item' and f.get('m') == 'from' and f['args'] == 1]:
        a, r = P.types[im['locals'][1]], P.types[im['locals'][0]]
        if a['k'] != 'enum' or r['k'] != 'enum': continue
        pair = (a['s'].split('<')[0], r['s'].split('<')[0])
        if not (pair[0].startswith('syntax::ast::') and pair[1].startswith('semantic::program::')): continue
        for vi, v in enumerate(a['v']):
            I = Interp(P, hooks=[ident_copy], max_visits=3, max_depth=10)
            arg = ('a', im['locals'][1], vi, tuple(('s', I.mk('arg', f[0]), f[1]) for f in v['f']))
            for st in I.run(im, [arg]):
                if st.end != 'return': continue
                R.count('conversions')
                if vname(I, st.ret) != v['n']: R.bad('conversion:%s:%s' % (pair[0], v['n']), '%s::%s becomes %s::%s in the program (%s)' % (pair[0], v['n'], pair[1], vname(I, st.ret), im['n']))

def check(P, R, tier):
    X = Scopes(P)
    S = Sem(P, X)
    ns = (0, 1, 2, 3) if tier == 'thorough' else (0, 1, 2)
    shapes = []
    for label, kind, v, n in S.shapes(ns):
        if kind != 'Command': shapes.append((label, kind, v, n, None)); continue
        for r in (0, 1):
            for e in (0, 1): shapes.append(('%s/env%d' % (label, e), kind, v, n, command_head(S, P, {'redirections': r, 'env': e, 'arguments': 2})))
    for label, kind, v, n, sub in shapes:
        I, res = S.explore(kind, v, n, sub=sub, max_visits=5)
        R.count('nodes')
        for st in res:
            if st.end != 'return':
                if st.end not in ('rpanic', 'diverge'): R.bad('unfollowed:' + label, 'the analysis of %s could not be followed to its end (%s)' % (label, st.end))
                continue
            acc = S.accepted(I, st)
            if acc is False: continue
            def bad(w, m): R.bad('node:%s:%s' % (label.split('/')[0], w), 'analysis of %s: %s; %s' % (label, m, fmt_path(I, st)))
            R.count('accepted_paths')
            if v == 'IllFormed': bad('ill', 'an ill-formed node is accepted'); continue
            tr = Tr(S, I, st)
            for t, es in tr.sub.items():
                if len(es) > 1: bad('twice', '%s is analysed twice' % tr.nm(t))
            if acc is None:
                if st.ret[0] == 's' and any(st.ret[1] == e[4] for e in S.subs(I, st)) and len(S.subs(I, st)) == 1: continue
                bad('unknown', 'the result could not be determined'); continue
            lost = [nm for nm in S.subs(I, st) if S.sub_ok(I, st, nm) is not True]
            try:
                node(S, I, st, kind, v, n, tr, st.ret[3][0])
                for e in S.subs(I, st):
                    if e[2] not in tr.used: raise Mismatch('%s is analysed but not part of the program' % tr.nm(e[2]))
            except Mismatch as m:
                bad(str(m).replace(' ', '-')[:40], str(m))
    conversions(P, R)
    program(P, R, S)
    R.floor('nodes', 50); R.floor('accepted_paths', 55); R.floor('conversions', 20); R.floor('programs', 1)

def program(P, R, S):
    fs = [f for f in P.fns if f.get('local') and f['kind'] == 'item' and f['args'] >= 1 and P.types[f['locals'][1]]['s'] == 'syntax::ast::Ast'
          and P.types[f['locals'][0]]['s'].startswith('std::result::Result<semantic::program::Program')]
    for f in need(fs, 'the analysis of a whole source'):
        I = Interp(P, hooks=[S.hook, ident_copy], opaque=lambda g: '::fmt' in g['n'] or g['n'].startswith(('symbol::', 'semantic::error::Error::')), max_visits=3, max_depth=30)
        I.kids = {}
        ast = ('s', I.mk('ast'), f['locals'][1])
        for st in I.run(f, [ast] + [('s', I.mk('arg', ('n', i)), f['locals'][i]) for i in range(2, f['args'] + 1)]):
            if st.end != 'return' or st.ret[0] != 'a' or st.ret[2] != 0: continue
            R.count('programs')
            pr = st.ret[3][0]
            pf = [x[0] for x in P.types[pr[1]]['v'][0]['f']]
            fs2 = dict(zip(pf, pr[3]))
            af = [x[0] for x in P.types[f['locals'][1]]['v'][0]['f']]
            A = lambda nm: I.mk('f', I.mk('ast'), ('n', af.index(nm)))
            sub = [e for e in S.subs(I, st) if e[1] == 'Block']
            frame = [e for e in st.events() if e[0] == 'scope' and e[1] == 'exit_frame']
            def bad(w, m): R.bad('program:' + w, 'analysis of a source: %s; %s' % (m, fmt_path(I, st)))
            if len(sub) != 1 or sub[0][2] != A('statements'): bad('statements', 'the statements analysed are not those of the source'); continue
            if I.term(st, fs2['statements']) != I.mk('f', I.mk('d', sub[0][4], ('n', 1)), ('n', 0)): bad('statements', 'the statements of the program are not those of the source')
            if 'source' in fs2 and I.term(st, fs2['source']) != A('source'): bad('source', 'the program names another source')
            if not frame or root(I, I.term(st, fs2['root_slots'])) != frame[-1][3]: bad('slots', 'the slots of the program are not those of its frame')
