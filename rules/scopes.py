"""The scope stack of the semantic analyser, explored on explicit stacks."""
from maps import *

class Scopes:
    def __init__(self, P):
        self.P = P
        g = lambda n: need(ty(P, n), n)
        self.stack_ti = g('semantic::scope::Stack'); self.frame_ti = g('semantic::scope::Frame'); self.scope_ti = g('semantic::scope::Scope')
        self.slot_ti = g('semantic::program::mem::SlotIx'); self.cap_ti = g('semantic::program::mem::Capture'); self.info_ti = g('semantic::program::mem::FrameInfo')
        self.role = {}
        cand = [f for f in P.fns if f.get('local') and f['kind'] == 'item' and f.get('dk') != 'Closure' and not f.get('trait') and f['args'] >= 1 and P.types[f['locals'][1]].get('to') == self.stack_ti]
        for f in cand:
            r = P.types[f['locals'][0]]['s']
            ar = [P.types[x]['s'] for x in f['locals'][2:f['args'] + 1]]
            if f['locals'][0] == self.info_ti: self.role['exit_frame'] = f
            elif f['locals'][0] == self.slot_ti and not ar: self.role['self'] = f
            elif r.startswith('std::result::Result<' + P.types[self.slot_ti]['s']): self.role['resolve' if any('Interner' in x for x in ar) else 'declare'] = f
            elif r == '()' and not ar:
                I, res = self.run_fn(f)
                for st in res:
                    if st.end != 'return': continue
                    d = self.frames(I, st)
                    if len(d) == 4: self.role['enter_frame'] = f
                    elif len(d) == 3 and len(d[-1]['scopes']) == 3: self.role['enter_block'] = f
                    elif len(d) == 3 and len(d[-1]['scopes']) == 1: self.role['exit_block'] = f
        self.of = {f['id']: r for r, f in self.role.items()}
    def pick(self, ti, pred):
        r = [i for i, f in enumerate(self.P.types[ti]['v'][0]['f']) if pred(self.P.types[f[1]]['s'], f[1])]
        need(len(r) == 1, 'field of ' + self.P.types[ti]['s'])
        return r[0]
    def layout(self):
        s = lambda n: self.P.types[n]['s']
        self.f_frames = self.pick(self.stack_ti, lambda x, t: x == 'std::vec::Vec<%s>' % s(self.frame_ti))
        self.f_slots = self.pick(self.frame_ti, lambda x, t: t == self.slot_ti)
        self.f_caps = self.pick(self.frame_ti, lambda x, t: x == 'std::vec::Vec<%s>' % s(self.cap_ti))
        self.f_self = self.pick(self.frame_ti, lambda x, t: x == 'std::option::Option<%s>' % s(self.slot_ti))
        self.f_scopes = self.pick(self.frame_ti, lambda x, t: x == 'std::vec::Vec<%s>' % s(self.scope_ti))
        self.f_vars = self.pick(self.scope_ti, lambda x, t: x.startswith('std::collections::HashMap<'))
    def slot(self, n):
        return ('a', self.slot_ti, 0, (('k', n, self.P.types[self.slot_ti]['v'][0]['f'][0][1]),))
    def stack(self, I, nframes=3, selfs=None, topscopes=2, caps=()):
        """frames 0..n with two scopes each; scope j of frame i declares k<i><j> in slot 10*i+j; the next free slot of frame i is 10*i+5, at least"""
        self.layout()
        P = self.P
        sti = P.types[self.scope_ti]['v'][0]['f']; fti = P.types[self.frame_ti]['v'][0]['f']
        frames = []
        mti = sti[self.f_vars][1]
        sym = P.types[mti]['a'][0]
        for i in range(nframes):
            scopes = []
            for j in range(topscopes if i == nframes - 1 else 2):
                fs = [('s', I.mk('scopefield', ('n', q)), f[1]) for q, f in enumerate(sti)]
                fs[self.f_vars] = ('a', mti, 'vec', (('a', None, 0, (('s', I.mk('key', ('n', '%d%d' % (i, j))), sym), self.slot(10 * i + j))),))
                scopes.append(('a', self.scope_ti, 0, tuple(fs)))
            fs = [('s', I.mk('framefield', ('n', q)), f[1]) for q, f in enumerate(fti)]
            fs[self.f_slots] = self.slot(10 * i + 5)
            fs[self.f_caps] = ('a', fti[self.f_caps][1], 'vec', tuple(('a', self.cap_ti, 0, tuple(self.slot(x) for x in c)) for c in caps))
            fs[self.f_self] = ('a', fti[self.f_self][1], 0, ()) if selfs is None else ('a', fti[self.f_self][1], 1, (self.slot(10 * i + 4),))
            fs[self.f_scopes] = ('a', fti[self.f_scopes][1], 'vec', tuple(scopes))
            frames.append(('a', self.frame_ti, 0, tuple(fs)))
        s = [('s', I.mk('stackfield', ('n', q)), f[1]) for q, f in enumerate(P.types[self.stack_ti]['v'][0]['f'])]
        s[self.f_frames] = ('a', P.types[self.stack_ti]['v'][0]['f'][self.f_frames][1], 'vec', tuple(frames))
        I.const_mem[('n', 'stack')] = ('a', self.stack_ti, 0, tuple(s))
        return ('r', ('n', 'stack'), ())
    def run_fn(self, f, nframes=3, **kw):
        P = self.P
        I = Interp(P, hooks=[maps, ident_copy], opaque=lambda g: '::fmt' in g['n'] or g['n'].startswith(('symbol::', 'semantic::error::Error::')), max_visits=nframes + 4, max_depth=40)
        a = [self.stack(I, nframes, **kw)]
        for i in range(2, f['args'] + 1):
            t = P.types[f['locals'][i]]
            nm = 'x' if t['s'].endswith('Symbol') else 'pos' if 'SourcePos' in t['s'] else 'arg%d' % i
            a.append(('s', I.mk(nm), f['locals'][i]))
        return I, [s for s in I.run(f, a) if s.end != 'infeasible']
    def run(self, role, **kw): return self.run_fn(need(self.role.get(role), 'scope operation ' + role), **kw)
    def num(self, I, st, v):
        v = v[3][0] if v[0] == 'a' else v
        return v[1] if v[0] == 'k' else I.show(I.term(st, v))
    def frames(self, I, st, v=None):
        v = I.read(st, ('n', 'stack'), ())
        out = []
        fr = v[3][self.f_frames]
        if fr[0] != 'a': return None
        for f in fr[3]:
            d = {'slots': self.num(I, st, f[3][self.f_slots])}
            caps = f[3][self.f_caps]
            d['captures'] = [self.cap(I, st, c) for c in caps[3]] if caps[0] == 'a' else I.show(I.term(st, caps))
            s = f[3][self.f_self]
            d['self'] = None if s[0] == 'a' and s[2] == 0 else self.num(I, st, s[3][0]) if s[0] == 'a' else I.show(I.term(st, s))
            sc = f[3][self.f_scopes]
            d['scopes'] = [self.scope(I, st, x) for x in sc[3]] if sc[0] == 'a' else I.show(I.term(st, sc))
            out.append(d)
        return out
    def cap(self, I, st, c):
        fs = self.P.types[self.cap_ti]['v'][0]['f']
        return {f[0]: self.num(I, st, x) for f, x in zip(fs, c[3])} if c[0] == 'a' else I.show(I.term(st, c))
    def scope(self, I, st, x):
        m = x[3][self.f_vars] if x[0] == 'a' else x
        if m[0] != 'a': return I.show(I.term(st, m))
        return [(I.term(st, p[3][0]), self.num(I, st, p[3][1])) for p in m[3]]
    def diff(self, I, st): return self.frames(I, st)
