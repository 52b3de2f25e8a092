"""Everything a live value refers to stays alive."""
from lib import *

TECHNIQUE = 'field-coverage analysis of every implementation of the collector\'s traversal, over the type graph'
RULE = ('For every type of the program that the garbage collector can meet, every path of its trace, root and unroot is followed per variant: every field whose type can hold a collected reference '
        '(found over the graph of field types and type arguments, through native function objects) must be visited by the same traversal exactly once on every path, and nothing else that is not a part of the value. '
        'An empty traversal is accepted exactly for types without such a field.')
ASSUMPTIONS = ['the traversals of the gc crate for Gc, GcCell, Box, Vec, HashMap, tuples and slices visit their contents',
               'references with static lifetime point to leaked memory, whose collected references count as roots for ever',
               'a handle outside collected memory (the stack, a local, a thread local) is a root of its own, by construction of the gc crate']

def check(P, R, tier):
    bearing = Bearing(P)
    impls = {}
    for f in P.fns:
        if f.get('local') and (f.get('trait') or '').endswith('gc::Trace') and f.get('m') in ('trace', 'root', 'unroot') and f['args'] == 1:
            r = P.types[f['locals'][1]]
            if r['k'] not in ('ref', 'ptr'): continue
            impls.setdefault(r['to'], {})[f['m']] = f
    # every type that may be stored in collected memory
    seen = {}
    for ti, fs in sorted(impls.items()):
        T = P.types[ti]
        R.count('types')
        for m in ('trace', 'root', 'unroot'):
            if m not in fs: R.bad('missing:%s:%s' % (T['s'], m), '%s has no %s' % (T['s'], m)); continue
            for v in range(len(T.get('v') or [])): one(P, R, bearing, fs[m], m, ti, v)
    # local types that hold collected references in collected memory must be visited by name
    for i, T in enumerate(P.types):
        if T['s'].startswith('gc::Gc<') or T['s'].startswith('gc::GcCell<'):
            for x in inner(P, i):
                if P.types[x].get('local') and P.types[x]['k'] in ('struct', 'enum') and x not in impls and not generic(P, x):
                    R.bad('untraced:%s' % P.types[x]['s'], '%s is kept in collected memory, but how the collector traverses it was not found' % P.types[x]['s'])
    R.floor('types', 40); R.floor('fields_visited', 36); R.floor('paths', 120)

def generic(P, ti):
    return any(not isinstance(a, int) or P.types[a]['k'] == 'param' for a in P.types[ti].get('a') or [])

def inner(P, ti, seen=None):
    """local types reached through the type arguments of a library type"""
    seen = set() if seen is None else seen
    out = set()
    for a in P.types[ti].get('a') or []:
        if not isinstance(a, int) or a in seen: continue
        seen.add(a)
        if P.types[a].get('local'): out.add(a)
        else: out |= inner(P, a, seen)
    return out

class Bearing:
    """types through which a collected reference can be reached"""
    def __init__(self, P):
        self.P = P; self.memo = {}
    def __call__(self, ti, stack=()):
        if ti in self.memo: return self.memo[ti]
        if ti in stack: return False
        T = self.P.types[ti]; s = T['s']; k = T['k']
        st = stack + (ti,)
        if s.startswith('gc::Gc<'): r = True
        elif k == 'dyn' or s.startswith('dyn '): r = 'NativeFun' in s
        elif k in ('ref',): r = False
        elif k in ('ptr', 'rawptr'): r = 'to' in T and self(T['to'], st)
        elif k == 'param' or k == 'other' and s.isidentifier(): r = True      # a type parameter may be anything
        elif k in ('tuple', 'closure'): r = any(self(f if isinstance(f, int) else f[1], st) for f in T.get('f') or [])
        elif k in ('array', 'slice'): r = any(isinstance(T.get(x), int) and self(T[x], st) for x in ('of', 'to', 'e', 'el'))
        elif k in ('struct', 'enum', 'union'):
            r = any(isinstance(a, int) and self(a, st) for a in T.get('a') or [])
            if T.get('local'): r = r or any(self(f[1], st) for v in T.get('v') or [] for f in v['f'])
        else: r = False
        if not stack: self.memo[ti] = r
        return r

def helper(P, name, m):
    """the generic helper of a derived traversal, which only passes its argument on"""
    if not name.endswith('::%s::mark' % m): return False
    fs = [f for f in P.fns if f['n'] == name]
    return bool(fs) and all(any(b[1][0] == 'call' and b[1][1].get('decl') == 'gc::Trace::' + m for b in f['bb']) for f in fs)

def one(P, R, bearing, f, m, ti, v):
    T = P.types[ti]
    want = {i for i, x in enumerate(T['v'][v]['f']) if bearing(x[1])}
    objs = {}
    def hook(I, st, c):
        if (c.info.get('decl') == 'gc::Trace::' + m or helper(P, c.info.get('p') or c.name, m)) and len(c.args) == 1:
            a = c.args[0]
            for _ in range(3):
                if a[0] == 'r' and I.read(st, a[1], a[2])[0] == 'r' and a[1] != objs['self']: a = I.read(st, a[1], a[2])
                else: break
            if a[0] == 'r' and a[1] == objs['self']: st.event(('visit', tuple(a[2])))
            else: st.event(('visit', None, I.show(I.term(st, c.args[0]), 6)))
            return [(st, I.unit())]
        if c.info.get('decl', '').startswith('gc::Trace::'):
            st.event(('other', c.info['decl'])); return [(st, I.unit())]
        return None
    I = Interp(P, hooks=[hook])
    def setup(st):
        objs['self'] = I.alloc(st, I.expand(st, ('s', I.mk('self'), ti), v))
        st.mem[(st.frames[0].uid, 1)] = ('r', objs['self'], ())
    res = I.run(f, [('s', I.mk('self'), f['locals'][1])], setup)
    key = '%s:%s:%s' % (T['s'], T['v'][v]['n'], m)
    where = '%s of %s' % (m, T['s'] if T['k'] == 'struct' else T['s'] + '::' + T['v'][v]['n'])
    for st in res:
        if st.end == 'unreachable': continue
        R.count('paths')
        if st.end != 'return':
            R.bad(key, '%s does not finish: %s; %s' % (where, st.end, fmt_path(I, st))); continue
        got = {}
        for e in st.events():
            if e[0] == 'other': R.bad(key, '%s calls %s' % (where, e[1]))
            if e[0] != 'visit': continue
            if e[1] is None: R.bad(key, '%s visits something that is not a part of the value: %s' % (where, e[2])); continue
            fs = [x for x in e[1] if not isinstance(x, str)]
            i = field(fs)
            if i is None:
                if not want: continue
                R.bad(key, '%s visits the value itself' % where); continue
            got[i] = got.get(i, 0) + 1
        for i in want:
            R.count('fields_visited')
            if i not in got: R.bad(key, '%s does not visit the field %s (a %s), through which collected values are reached (%s)' % (where, T['v'][v]['f'][i][0], P.types[T['v'][v]['f'][i][1]]['s'], f['file']))
            elif got[i] > 1 and m != 'trace': R.bad(key, '%s visits the field %s %d times, so that the count of roots is off' % (where, T['v'][v]['f'][i][0], got[i]))

def field(path):
    """index of the first field in an access path"""
    for x in path:
        if isinstance(x, tuple) and x and x[0] == 'f': return x[1]
        if isinstance(x, list) and x and x[0] == 'f': return x[1]
        if isinstance(x, int): return x
    return None
