"""Panics and static errors point at the construct concerned."""
import evalspec
from evalspec import scenarios, opaque_data
from natspec import *
from sem import *
from scopes import Scopes
from p05 import command_head

TECHNIQUE = 'provenance of every source position: abstract interpretation of the evaluator, the native functions, the analyser and the conversions, each position read off as a term over the node explored'
RULE = ('A source position is identified by where its line, column and path come from; one whose three parts come from different places, or in another order, is nobody\'s. For every node form of the evaluator, on every path: the position of a panic raised there, of a '
        'function created there and of a call made there is the position of the node, or the position that came with the evaluation of one of its parts - of the very part whose value the panic names; and the position returned with a value is that of the node. '
        'A function call hands the position of the call to native functions and raises its own panics there; a native function raises its panics at, and makes its calls from, the position of its call. Every static error reported for a node carries '
        'the position written in the node for the part at fault. Every kind of panic and of static error is printed with its own position, a position with its path, line and column.')
ASSUMPTIONS = ['the positions of the syntax tree are those of P25 and P29, those of the program those of P28', 'a native function is explored with up to three arguments', 'the format machinery of std prints the arguments it is given']

def is_pos(P, ti):
    t = P.types[ti] if ti is not None else None
    return t is not None and t['k'] == 'struct' and t['s'].split('<')[0].endswith('SourcePos')

class Pos:
    def __init__(self, P): self.P = P
    def names(self, ti): return [f[0] for f in self.P.types[ti]['v'][0]['f']]
    def deref(self, I, st, v):
        while v[0] == 'r': v = I.read(st, v[1], v[2])
        return v
    def origin(self, I, st, v):
        """term of the position v is a copy of; None when its parts are not those of one"""
        v = self.deref(I, st, v)
        if v[0] == 's': return self.norm(I, v[1])
        if v[0] != 'a': return None
        out = set()
        for nm, x in zip(self.names(v[1]), v[3]):
            x = self.deref(I, st, x)
            t = I.T.t[I.term(st, x)]
            if t[0] != 'f': return None
            j = I.T.t[t[2]] if isinstance(t[2], int) else t[2]
            out.add((self.norm(I, t[1]), j[1] if isinstance(j, tuple) else j, nm))
        ks = {o[0] for o in out}
        if len(ks) != 1: return None
        for o, j, nm in out:
            for ns in self.order():
                if j < len(ns) and ns[j] == nm: break
            else: return None
        return next(iter(ks))
    def shown(self, I, t):
        """origins of the positions inside a term"""
        out = []; seen = set(); stack = [t]
        while stack:
            t = stack.pop()
            if t in seen: continue
            seen.add(t)
            k = I.T.t[t]
            if k[0] == 'agg' and len(k) == 4 and k[1].endswith('SourcePos') and isinstance(k[3], tuple):
                ns = next((ns for i, ns in zip(self.order_ti(), self.order()) if self.P.types[i].get('p', self.P.types[i]['s']) == k[1]), ())
                os_ = set()
                for nm, x in zip(ns, k[3]):
                    x = I.T.t[self.norm(I, x)]
                    j = I.T.t[x[2]] if x[0] == 'f' and isinstance(x[2], int) else x[2] if x[0] == 'f' else None
                    j = j[1] if isinstance(j, tuple) else j
                    os_.add(self.norm(I, x[1]) if x[0] == 'f' and any(isinstance(j, int) and j < len(o) and o[j] == nm for o in self.order()) else None)
                out.append(next(iter(os_)) if len(os_) == 1 else None)
                continue
            if k[0] == 'n': out.append(t); continue
            for p in k[1:]:
                if isinstance(p, bool): continue
                if isinstance(p, int): stack.append(p)
                elif isinstance(p, tuple) and not (p and p[0] == 'n'): stack += [q for q in p if isinstance(q, int) and not isinstance(q, bool)]
        return out
    def order_ti(self): return [i for i, t in enumerate(self.P.types) if t and is_pos(self.P, i)]
    def order(self):
        if not hasattr(self, '_o'): self._o = [self.names(i) for i, t in enumerate(self.P.types) if t and is_pos(self.P, i)]
        return self._o
    def norm(self, I, t):
        k = I.T.t[t]
        while k[0] in ('*', '&', 'conv'): t = k[1]; k = I.T.t[t]
        return t
    def root(self, I, t):
        """the symbol a path of fields starts at"""
        k = I.T.t[t]
        while k[0] in ('f', 'd', '*', '&'): t = k[1]; k = I.T.t[t]
        return t
    def within(self, I, t, acc=None):
        """evaluations a term depends on"""
        acc = set() if acc is None else acc
        def go(x):
            if x in seen: return
            seen.add(x)
            k = I.T.t[x]
            if k[0] == 'eval': acc.add(x); return
            for y in k[1:]:
                if isinstance(y, int) and 0 <= y < len(I.T.t) and k[0] != 'n': go(y)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, int) and 0 <= z < len(I.T.t): go(z)
        seen = set()
        go(t)
        return acc

def panic_pos(P, v):
    """(fields other than the position, position) of a panic"""
    names = [f[0] for f in P.types[v[1]]['v'][v[2]]['f']]
    ts = [f[1] for f in P.types[v[1]]['v'][v[2]]['f']]
    ps = [x for x, ti in zip(v[3], ts) if is_pos(P, ti)]
    return [x for x, ti in zip(v[3], ts) if not is_pos(P, ti)], ps

def evaluator(P, R, X):
    E = Eval(P)
    keep = evalspec.SELF_OPAQUE
    try:
        evalspec.SELF_OPAQUE = tuple(x for x in keep if x not in ('runtime::source::', 'runtime::panic::'))
        for s in scenarios(E):
            I, res = evalspec.explore(E, s)
            R.count('nodes')
            node = I.mk('node')
            lab = s.label.split('/')[0]
            for st in res:
                if st.end != 'return': continue
                def bad(w, m): R.bad('%s:%s' % (w, lab), 'evaluation of %s: %s; %s' % (s.label, m, fmt_path(I, st)))
                def whose(v, what, values=None):
                    o = X.origin(I, st, v)
                    if o is None: bad('mixed', '%s is not the position of anything' % what); return
                    r = X.root(I, o); k = I.T.t[r]
                    if own(I, o, r, node, s): return
                    if k[0] == 'eval' and o == X.norm(I, E.pos_of(I, r)):
                        if values is not None:
                            ev = {e for v2 in values for e in X.within(I, I.term(st, v2)) if I.T.t[e][1] == 'expr' or I.T.t[e][1] == k[1]}
                            ev = {e for e in ev if I.T.t[e][1] == 'expr'}
                            if ev and r not in ev: bad('other', '%s is the position of another part than the value it names' % what)
                        return
                    bad('foreign', '%s is the position of neither the node nor one of its parts (%s)' % (what, I.show(o, 5)))
                o = E.outcome(I, st, s.kind)
                if o[0] == 'panic' and o[1][0] == 'a':
                    vals, ps = panic_pos(P, o[1])
                    R.count('panics')
                    for p in ps: whose(p, 'the position of the panic (%s)' % panic_name(I, o[1]), vals)
                elif o[0] == 'panic':
                    k = I.T.t[X.root(I, I.term(st, o[1]))]
                    if k[0] not in ('eval', 'call', 'pcall'): bad('unknown', 'the panic raised could not be determined')
                elif s.kind == 'expr' and o[0] == 'flow' and o[1] == 'Regular':
                    v = st.ret[3][0]
                    if v[0] == 's': continue                    # handed on: what a part gave
                    for x, ti in zip(v[3], P.types[v[1]]['f'] if P.types[v[1]]['k'] == 'tuple' else []):
                        if not is_pos(P, ti): continue
                        R.count('values')
                        oo = X.origin(I, st, x)
                        if oo is None or not own(I, oo, X.root(I, oo), node, s): bad('value', 'the position returned with the value is not that of the node')
                for e in st.events():
                    if e[0] == 'eval' and e[1] == 'call':
                        for x in e[6][1:]:
                            if pos_like(P, I, st, x): R.count('calls'); whose(x, 'the position of the call')
                    elif e[0] == 'call' and e[7].get('krate') == 'hush':
                        for x in e[2]:
                            if pos_like(P, I, st, x): R.count('calls'); whose(x, 'the position given to %s' % e[1].split('::')[-1])
    finally: evalspec.SELF_OPAQUE = keep

def own(I, o, r, node, s):
    return r == node or I.T.t[r][0] in ('node', 'nodeptr')

def pos_like(P, I, st, x):
    n = 0
    while x[0] == 'r' and n < 4: x = I.read(st, x[1], x[2]); n += 1
    return (x[0] == 's' and is_pos(P, x[2])) or (x[0] == 'a' and x[1] is not None and is_pos(P, x[1]))

def natives_(P, R, X, tier):
    from p14 import SPEC
    E = Eval(P)
    for nm, fn in natives_all(P):
        R.count('functions')
        sigs = SPEC.get(nm)
        ns = sorted({len(x) for x in sigs} | {max(len(x) for x in sigs) + 1}) if sigs else [0, 1, 2]
        if tier == 'thorough': ns = list(range(0, max(ns) + 2))
        for n in ns:
            I, res = explore_native(E, fn, lambda V: [V.any('a%d' % i) for i in range(n)], max_visits=3, opaque=lambda f: not nm.startswith('std.') and f.get('dk') != 'Closure' and not any(is_pos(P, l) for l in f['locals'][1:f['args'] + 1]) and 'Panic' not in P.types[f['locals'][0]]['s'])
            want = I.mk('ctx', 'pos')
            for st in res:
                if st.end != 'return': continue
                def bad(w, m): R.bad('%s:%s' % (w, nm), '%s with %d arguments: %s; %s' % (nm, n, m, fmt_path(I, st)))
                r = result_of(I, st)
                if r[0] == 'panic' and r[2][0] == 'a':
                    _, ps = panic_pos(P, r[2])
                    for p in ps:
                        R.count('native_panics')
                        if X.origin(I, st, p) != want and not (nm == 'std.import' and beginning(X, I, st, p)): bad('native', 'the position of the panic (%s) is not that of the call' % r[1])
                for e in st.events():
                    if e[0] == 'eval' and e[1] == 'call':
                        for x in e[6][1:]:
                            if pos_like(P, I, st, x):
                                R.count('native_calls')
                                if X.origin(I, st, x) != want: bad('back', 'the function it is given is not called from the position of the call')

def beginning(X, I, st, v):
    """the beginning of a file"""
    v = X.deref(I, st, v)
    if v[0] != 'a': return False
    f = dict(zip(X.names(v[1]), v[3]))
    return all(X.deref(I, st, f[k])[0] == 'k' and X.deref(I, st, f[k])[1] == 0 for k in ('line', 'column'))

def calls(P, R, X):
    """the call routine: its own panics and the context of native functions"""
    E = Eval(P)
    for fid in E.call_fns:
        fn = P.by_id(fid) if hasattr(P, 'by_id') else P.fns[fid]
        opq = {f['n'] for f in P.fns if f.get('local') and opaque_data(f) and not f['n'].startswith(('runtime::source', 'runtime::panic')) and not (f.get('self') or '').startswith(('runtime::source', 'runtime::panic'))}
        evids = {i: k for k in E.ev for i in E.ev[k]}
        seen = []
        def step(I, st, c):
            k = evids.get(c.info.get('id'))
            if k: return E.step_result(I, st, c, k, I.term(st, c.args[1]))
            if c.info.get('id') in E.call_fns: return E.step_result(I, st, c, 'call', I.term(st, c.args[2]))
            for a in c.args[1:]:
                if a[0] == 'a' and a[1] is not None and P.types[a[1]]['s'].split('<')[0].endswith('CallContext'):
                    t = P.types[a[1]]['v'][0]['f']
                    for x, f in zip(a[3], t):
                        if is_pos(P, f[1]):
                            R.count('contexts')
                            if X.origin(I, st, x) != I.mk('arg', ('n', 5)): R.bad('context:call', 'a native function is not told the position of its call; ' + fmt_path(I, st))
                    st.ctr += 1
                    return [(st, ('s', I.mk('native', ('n', st.ctr)), c.dti))]
            return ident_copy(I, st, c)
        I = Interp(P, hooks=[step], opaque=lambda f: f['n'] in opq or '::fmt' in f['n'] or f['n'].startswith('runtime::command'), max_visits=3, max_depth=30)
        args = [('s', I.mk('self'), fn['locals'][1])] + [('s', I.mk('arg', ('n', i)), fn['locals'][i]) for i in range(2, 6)]
        for st in split_results(I, I.run(fn, args)):
            if st.end != 'return' or not is_variant(I, st.ret, 'Err') or st.ret[3][0][0] != 'a': continue
            for p in panic_pos(P, st.ret[3][0])[1]:
                R.count('call_panics')
                if X.origin(I, st, p) != I.mk('arg', ('n', 5)): R.bad('call:' + panic_name(I, st.ret[3][0]), 'a panic (%s) of a call does not have the position of the call; %s' % (panic_name(I, st.ret[3][0]), fmt_path(I, st)))


def blocks(P, R, X):
    """command blocks: a panic about a command has its position, any other that of the block"""
    from world import World, Lit, story
    W = World(P)
    arr = [('$', 0)]
    slots = lambda V: {0: V.array([V.string(b'item%d' % i) for i in range(2)])}
    faults = [('an array as program', {'program': arr}), ('an array as variable', {'env': [(Lit('K'), arr)]}), ('an array as target', {'redirs': [('>', 1, arr)]}), ('an array as source', {'redirs': [('<', arr)]}),
              ('an unsupported descriptor', {'redirs': [('>', 7, 'f')]}), ('an unsupported target', {'redirs': [('&', 1, 7)]}), ('a pattern', {'args': [[('Star',)]]})]
    cases = [('cd with two items', 0, [{'builtin': 'Cd', 'args': [arr]}, [{}]], 'c0'), ('cd without items', 0, [{'builtin': 'Cd', 'args': []}, [{}]], 'c0'), ('exec without items', 1, [[{}], {'builtin': 'Exec', 'args': []}], 'c1')]
    for what, fault in faults:
        for where, cmds in (('c00', [[fault, {}], [{}]]), ('c01', [[{}, fault], [{}]]), ('c10', [[{}], [fault]])): cases.append((what + ' in the command ' + where, 0, cmds, where))
    for label, _, cmds, where in cases:
        I, res = W.run('Synchronous', cmds, slots=slots, outcomes=('zero',), nglob=(1,), nofail=('dup', 'pipe', 'open', 'spawn'))
        for st in res:
            if st.end != 'return' or not is_variant(I, st.ret, 'Err') or st.ret[3][0][0] != 'a': continue
            for p in panic_pos(P, st.ret[3][0])[1]:
                R.count('block_panics')
                o = X.origin(I, st, p)
                k = I.T.t[o] if o is not None else (None, None)
                if not (k[0] == 'n' and isinstance(k[1], str) and k[1].startswith(where + '.')):
                    R.bad('command:%s' % label.split(' in the')[0].replace(' ', '-'), 'a block with %s: the position of the panic (%s) is not that of the command (%s); %s' % (label, panic_name(I, st.ret[3][0]), k[1] if o is not None else 'nothing', story(I, st)))
    for shape in ([1], [2], [1, 1]):
        I, res = W.run('Capture', [[{'abort': True}] * k for k in shape], outcomes=('zero',))
        for st in res:
            if st.end != 'return' or not is_variant(I, st.ret, 'Err') or st.ret[3][0][0] != 'a': continue
            for p in panic_pos(P, st.ret[3][0])[1]:
                R.count('block_panics')
                o = X.origin(I, st, p)
                k = I.T.t[o] if o is not None else (None, None)
                if k[0] != 'n' or not (k[1] == 'blockpos' or str(k[1]).endswith('.pos')): R.bad('block', 'a capture block: the position of the panic (%s) is that of neither the block nor a command; %s' % (panic_name(I, st.ret[3][0]), story(I, st)))

def carriers(P):
    """types of errors: index -> (variant, field) of every position in them"""
    out = {}
    for i, t in enumerate(P.types):
        if not t or t['k'] not in ('enum', 'struct') or not t.get('local', True): continue
        if not t['s'].startswith(('runtime::panic::', 'runtime::command::', 'semantic::error::', 'syntax::')): continue
        fs = [(vi, fi) for vi, v in enumerate(t.get('v') or []) for fi, f in enumerate(v['f']) if is_pos(P, f[1])]
        if fs and ('Panic' in t['s'] or 'Error' in t['s']): out[i] = fs
    return out

def makers(P, R, X, C):
    """constructors and conversions of errors keep the position they are given"""
    for fn in P.fns:
        if not fn.get('local') or fn['kind'] != 'item' or fn.get('dk') == 'Closure': continue
        rt = fn['locals'][0]
        if rt not in C: continue
        ps = [i for i in range(1, fn['args'] + 1) if is_pos(P, fn['locals'][i])]
        vs = [i for i in range(1, fn['args'] + 1) if fn['locals'][i] in C]
        if len(ps) + len(vs) != 1: continue
        I = Interp(P, hooks=[ident_copy], opaque=lambda f: '::fmt' in f['n'] or f['n'].startswith('symbol::'), max_visits=3, max_depth=10)
        for st in I.run(fn, [('s', I.mk('arg', ('n', i)), fn['locals'][i]) for i in range(1, fn['args'] + 1)]):
            if st.end != 'return' or st.ret[0] != 'a': continue
            for p in panic_pos(P, st.ret)[1]:
                R.count('constructors')
                o = X.origin(I, st, p)
                if ps: ok = o == I.mk('arg', ('n', ps[0]))
                else: ok = o is not None and X.root(I, o) == I.mk('arg', ('n', vs[0]))
                if not ok: R.bad('made:' + fn['n'], '%s does not keep the position it is given; %s' % (fn['n'], fmt_path(I, st)))

class Named(Sem):
    """with the arguments of scope operations kept"""
    def hook(self, I, st, c):
        fid = c.info.get('id')
        if fid is not None and fid not in self.main_ids and c.ats and c.ats[0] is not None and self.P.types[c.ats[0]].get('to') == self.scope_ti: st.event(('given', c.m, tuple(c.args[1:])))
        return super().hook(I, st, c)

def copies(P, R, X):
    """copies and conversions of positions keep all of their parts"""
    for fn in P.fns:
        if not fn.get('local') or fn['kind'] != 'item' or fn.get('dk') == 'Closure' or fn['args'] != 1 or not is_pos(P, fn['locals'][0]): continue
        a = fn['locals'][1]
        while P.types[a]['k'] == 'ref': a = P.types[a]['to']
        if not is_pos(P, a): continue
        I = Interp(P, max_visits=3, max_depth=10)
        t = I.mk('arg', ('n', 1)); v = ('s', t, a)
        if P.types[fn['locals'][1]]['k'] == 'ref': I.const_mem[('n', 'pos')] = v; v = ('r', ('n', 'pos'), ())
        for st in I.run(fn, [v]):
            if st.end != 'return': continue
            R.count('copies')
            if X.origin(I, st, st.ret) != t: R.bad('copied:' + fn['n'], '%s does not give the position it is given; %s' % (fn['n'], fmt_path(I, st)))

def analysis(P, R, X, tier):
    S = Named(P, Scopes(P))
    shapes = []
    for label, kind, v, n in S.shapes((0, 1, 2)):
        if kind != 'Command': shapes.append((label, kind, v, n, None)); continue
        for r in (0, 1): shapes.append(('%s/%d' % (label, r), kind, v, n, command_head(S, P, {'redirections': r, 'env': 0, 'arguments': 2})))
    for label, kind, v, n, sub in shapes:
        I, res = S.explore(kind, v, n, sub=sub, max_visits=5)
        R.count('analysed')
        for st in res:
            if st.end != 'return': continue
            def bad(w, m): R.bad('%s:%s' % (w, label.split('/')[0]), 'analysis of %s: %s; %s' % (label, m, fmt_path(I, st)))
            def check(args, what):
                """values given along with a position"""
                for p in [x for x in args if pos_like(P, I, st, x)]:
                    R.count('reported')
                    o = X.origin(I, st, p)
                    if o is None: bad('mixed', 'the position of %s is not that of anything' % what); continue
                    if not contained(I, st, X, I.node, o): bad('foreign', 'the position of %s is not written in the node (%s)' % (what, I.show(o, 5))); continue
                    for y in args:
                        y2 = X.deref(I, st, y)
                        if y2[0] == 's' and P.types[y2[2]]['s'] == 'symbol::Symbol':
                            b = X.norm(I, y2[1])
                            if home(I, b) != home(I, o): bad('other', 'the position of %s is not the one of its name' % what)
            for e in st.events():
                if e[0] == 'call' and e[1].startswith('semantic::error::Error::'): check(e[2], 'an error')
                elif e[0] == 'given': check(e[2], 'a name')

def home(I, t):
    """the part of the tree a field belongs to"""
    k = I.T.t[t]
    if k[0] == 'n' and isinstance(k[1], str): return k[1].rpartition('.')[0]
    return k[1] if k[0] == 'f' else None

def contained(I, st, X, node, o):
    """is the position one of the tree's"""
    k = I.T.t[X.root(I, o)]
    return k[0] == 'n' and isinstance(k[1], str)

def display(P, R, X, C):
    """every error is printed with its own position, a position with all of its parts"""
    from fmtlib import Printer, printed
    for fn in P.fns:
        if not (fn.get('local') and fn['kind'] == 'item' and fn.get('m') == 'fmt' and fn['args'] == 3 and (fn.get('trait') or '').startswith('fmt::Display')): continue
        pr = Printer(P)
        base = pr.peel(fn['locals'][1])
        where = is_pos(P, base)
        if base not in C and not where: continue
        pr.leaf = lambda ti, I, st: is_pos(P, ti) and ti != base or P.types[ti]['s'] in ('symbol::Symbol', 'runtime::value::Value') or P.types[ti]['s'].endswith(('TokenKind', 'Token', 'Expected', 'ErrorKind', 'Argument')) and ti != base
        t = P.types[base]; R.count('types_printed')
        for vi, v in enumerate(t['v']):
            I = Interp(P, hooks=[pr.hook, ident_copy], max_visits=4, max_depth=25)
            x = ('a', base, vi, tuple(('s', I.mk('x', f[0]), f[1]) for f in v['f']))
            self_ = x; ti = fn['locals'][1]; n = 0
            while P.types[ti]['k'] == 'ref':
                I.const_mem[('n', 'obj%d' % n)] = self_; self_ = ('r', ('n', 'obj%d' % n), ()); ti = P.types[ti]['to']; n += 1
            label = t['s'].split('<')[0] + ('::' + v['n'] if t['k'] == 'enum' else '')
            for st in I.run(fn, [self_] + [('s', I.mk('arg', ('n', i)), fn['locals'][i]) for i in range(2, fn['args'] + 1)]):
                if st.end != 'return': continue
                def bad(w, m): R.bad('%s:%s' % (w, label), 'printing of %s: %s; %s' % (label, m, fmt_path(I, st)))
                ps = printed(P, st)
                if where:
                    R.count('positions_printed')
                    got = [I.T.t[X.norm(I, I.term(st, X.deref(I, st, p[3])))] for p in ps if not isinstance(p, bytes)]
                    names = [g[1] for g in got]
                    if names != ['path', 'line', 'column']: bad('parts', 'a position is not printed as its path, its line and its column')
                    lits = b'|'.join(p if isinstance(p, bytes) else b'*' for p in ps)
                    if lits.find(b'line') > lits.find(b'column') or b'line' not in lits: bad('parts', 'line and column are not named in this order')
                    continue
                fs = [f for f in v['f'] if is_pos(P, f[1])]
                if not fs: continue
                R.count('errors_printed')
                ok = [p for p in ps if not isinstance(p, bytes) and is_pos(P, P.ty_by_s.get(p[0]))]
                if len(ok) != 1: bad('unplaced', 'its position is printed %s' % ('more than once' if ok else 'nowhere')); continue
                if X.origin(I, st, ok[0][3]) != I.mk('x', fs[0][0]): bad('unplaced', 'what is printed is not its position')
                shown = {y for p in ps if not isinstance(p, bytes) for y in leaves(I, I.term(st, p[3]))}
                for f in v['f']:
                    if P.types[f[1]]['s'] in ('runtime::value::Value', 'symbol::Symbol') and I.mk('x', f[0]) not in shown: bad('lost', 'its %s is not printed' % f[0])

def leaves(I, t):
    out = set(); seen = set()
    def go(x):
        if x in seen: return
        seen.add(x)
        k = I.T.t[x]
        if k[0] == 'x': out.add(x); return
        for y in k[1:]:
            if isinstance(y, int) and k[0] != 'n': go(y)
            elif isinstance(y, tuple) and not (y and y[0] == 'n'):
                for z in y:
                    if isinstance(z, int): go(z)
    go(t)
    return out

def check(P, R, tier):
    X = Pos(P); C = carriers(P)
    evaluator(P, R, X)
    calls(P, R, X)
    natives_(P, R, X, tier)
    makers(P, R, X, C)
    copies(P, R, X)
    analysis(P, R, X, tier)
    display(P, R, X, C)
    blocks(P, R, X)
    R.floor('nodes', 49); R.floor('panics', 100); R.floor('values', 60); R.floor('calls', 60); R.floor('contexts', 1); R.floor('call_panics', 2); R.floor('functions', 50); R.floor('native_panics', 340)
    R.floor('native_calls', 5); R.floor('constructors', 40); R.floor('copies', 3); R.floor('analysed', 70); R.floor('reported', 70); R.floor('errors_printed', 40); R.floor('positions_printed', 2); R.floor('block_panics', 1)
