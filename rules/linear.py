"""Linear-use analysis: values of given types must not be dropped (or consumed by foreign code) while they may hold an instance."""
from lib import *

NOT_OWNING = ('gc::GcCellRef', 'std::cell::Ref', 'std::sync::MutexGuard', 'std::marker::PhantomData')
TRANSFER = ('gc::GcCell::<T>::new', 'std::boxed::Box::<T>::new', 'gc::Gc::<T>::new', 'std::cell::RefCell::<T>::new', 'std::rc::Rc::<T>::new', 'std::sync::Arc::<T>::new', 'std::mem::replace', 'std::mem::swap')

UNWRAPS = ('unwrap', 'expect', 'unwrap_unchecked')

class Linear:
    def __init__(self, P, names, holders=()):
        """names: type names (as printed) that must not be discarded"""
        self.P = P
        self.names = set(names)
        self.memo = {}
    def is_bad(self, ti):
        return self.P.types[ti]['s'].split('<')[0] in self.names
    def mentions(self, ti, depth=0):
        """may a value of the type own an instance?"""
        if ti is None: return False
        r = self.memo.get(ti)
        if r is not None: return r
        self.memo[ti] = False
        t = self.P.types[ti]
        r = False
        if t is None: r = False
        elif self.is_bad(ti): r = True
        elif t['k'] in ('ref', 'ptr', 'rawptr', 'fnptr', 'fndef', 'fn') or t['s'].startswith(NOT_OWNING): r = False
        else:
            for v in t.get('v') or []:
                if any(self.mentions(f[1], depth + 1) for f in v['f']): r = True
            if not r and t['k'] in ('tuple', 'closure'):
                fs = t.get('f') or []
                r = any(self.mentions(f if isinstance(f, int) else f[1], depth + 1) for f in fs if not isinstance(f, str))
            if not r and (t['k'] not in ('enum',) ) and not t.get('local'):
                r = any(isinstance(a, int) and self.mentions(a, depth + 1) for a in (t.get('a') or []))
            if not r and t['k'] in ('array', 'slice') and t.get('to') is not None: r = self.mentions(t['to'])
        self.memo[ti] = r
        return r
    def created(self, I, v):
        """a value made right here (constructor or constructor function), as opposed to one received from elsewhere"""
        return v[0] == 'a' or (v[0] == 's' and I.T.t[v[1]][0] == 'call')
    def may_hold(self, I, st, v, ti, depth=0):
        """may the value hold an instance on this path?"""
        if ti is None or not self.mentions(ti) or depth > 12: return False
        if v[0] == 'u': return False
        if self.is_bad(ti): return not self.created(I, v)
        t = self.P.types[ti]
        if v[0] == 'a':
            if isinstance(v[2], int) and t['k'] in ('enum', 'struct') and t.get('v'):
                if v[2] >= len(t['v']): return True
                fs = t['v'][v[2]]['f']
                return any(self.may_hold(I, st, x, f[1], depth + 1) for x, f in zip(v[3], fs))
            if v[2] in ('vec', 'array', 'list'):
                el = [a for a in (t.get('a') or []) if isinstance(a, int)] or [t.get('to')]
                return any(self.may_hold(I, st, x, el[0], depth + 1) for x in v[3])
            if t['k'] in ('tuple', 'closure'):
                fs = [f if isinstance(f, int) else f[1] for f in t.get('f') or []]
                return any(self.may_hold(I, st, x, f, depth + 1) for x, f in zip(v[3], fs))
            return True
        if v[0] == 's' and t.get('v') and t['k'] in ('enum', 'struct'):
            if t['k'] == 'enum':
                for i in variants_of(I, st, v, ti):
                    if not any(self.mentions(f[1]) for f in t['v'][i]['f']): continue
                    x = I.expand(st, v, i)
                    if any(self.may_hold(I, st, y, f[1], depth + 1) for y, f in zip(x[3], t['v'][i]['f'])): return True
                return False
            if not t.get('local'): 
                # foreign container with an unknown content
                if t['s'].startswith('std::vec::Vec<'):
                    ln = I.mk('len', v[1])
                    if st.facts.get(ln) == 0: return False
                return True
            x = I.expand(st, v, 0)
            return any(self.may_hold(I, st, y, f[1], depth + 1) for y, f in zip(x[3], t['v'][0]['f']))
        return True

def analyse(P, L, fns, on_swallow, R, opaque=None, max_visits=2, hooks=(), count='functions_analysed', max_paths=4000, inline=None, prepare=None, on_paths=None):
    """explore each function on its own; on_swallow(fn, I, st, ti, frame fn, line, how)"""
    ids = {f['id'] for f in fns}
    for f in fns:
        R.count(count)
        def drop(I, st, v, ti, fr, line):
            if fr.fn.get('local') is False and False: return None
            if L.mentions(ti) and not st.user.get('unw') and L.may_hold(I, st, v, ti):
                st.event(('swallow', ti, fr.fn['n'], line))
                on_swallow(f, I, st, v, ti, fr.fn, line, 'dropped')
            return None
        def hook(I, st, c):
            fid = c.info.get('id')
            if c.m in UNWRAPS and c.args and c.ats[0] is not None and L.mentions(c.ats[0]) and L.may_hold(I, st, c.args[0], c.ats[0]):
                on_swallow(f, I, st, c.args[0], c.ats[0], st.frames[-1].fn, c.line, c)
            # a foreign function without a body that takes an instance by value and cannot hand it on
            if fid is None and not c.local:
                taken = [i for i, ti in enumerate(c.ats) if ti is not None and L.mentions(ti) and L.may_hold(I, st, c.args[i], ti)]
                if taken and c.name not in TRANSFER and not L.mentions(c.dti) and not any(ti is not None and I.types[ti]['k'] == 'ref' and I.types[ti].get('mut') and L.mentions(I.types[ti]['to']) for ti in c.ats):
                    st.event(('foreign', c.name))
                    on_swallow(f, I, st, c.args[taken[0]], c.ats[taken[0]], st.frames[-1].fn, c.line, c)
            return None
        def opq(g):
            if opaque and opaque(g): return True
            if g.get('dk') == 'Closure': return False
            if inline and inline(g): return False
            return bool(g.get('local'))
        I = Interp(P, hooks=list(hooks) + [hook], opaque=opq, max_visits=max_visits, on_drop=drop, max_paths=max_paths, max_depth=14)
        args = [('s', I.mk('arg', ('n', i)), f['locals'][i]) for i in range(1, f['args'] + 1)]
        if prepare: prepare(I, f, args)
        try:
            res = I.run(f, args)
        except RuntimeError as e:
            if inline:
                analyse(P, L, [f], on_swallow, R, opaque, max_visits, hooks, count + '_apart', max_paths, None, prepare, on_paths)
                continue
            R.notes.append('%s: %s' % (f['n'], e)); R.count('functions_too_large')
            continue
        R.count('paths', len(res))
        if on_paths: on_paths(f, I, res)
