"""The semantic analyser, explored on every kind of syntax node."""
from lib import *

NODES = ('syntax::ast::Block', 'syntax::ast::Statement', 'syntax::ast::Expr', 'syntax::ast::Literal', 'syntax::ast::command::CommandBlock', 'syntax::ast::command::Command',
         'syntax::ast::command::BasicCommand', 'syntax::ast::command::Argument', 'syntax::ast::command::ArgPart', 'syntax::ast::command::ArgUnit',
         'syntax::ast::command::ArgExpansion', 'syntax::ast::command::Redirection')

class Sem:
    """The analyser: which function analyses which kind of node, and what one does with a given node.

    A node is built explicitly (a variant, lists of a given length), its sub-nodes stay opaque; an analysis of a sub-node, and
    every operation on the scopes, becomes an event with an opaque result."""
    def __init__(self, P, scopes=None):
        self.P = P
        self.op = {} if scopes is None else scopes.of
        self.an_tis = [i for i, t in enumerate(P.types) if t and t['k'] == 'struct' and t.get('local') and t['s'].split('<')[0] == 'semantic::Analyzer']
        need(self.an_tis, 'Analyzer')
        self.an_ti = self.an_tis[0]
        self.afields = P.types[self.an_ti]['v'][0]['f']
        self.node = {n: need(ty(P, n), n) for n in NODES}
        self.name = {v: k.split('::')[-1] for k, v in self.node.items()}
        self.ti = {v: k for k, v in self.name.items()}
        self.err_ti = need(ty(P, 'semantic::error::Error'), 'Error')
        self.scope_ti = need(ty(P, 'semantic::scope::Stack'), 'scope Stack')
        self.prog = {n: ty(P, 'semantic::program::' + n) or ty(P, 'semantic::program::command::' + n) for n in ('Statement', 'Expr', 'Literal', 'Lvalue', 'Block', 'CommandBlock', 'Command', 'BasicCommand', 'Argument', 'ArgPart', 'ArgUnit', 'Redirection', 'RedirectionTarget')}
        self.builtin_ti = ty(P, 'semantic::program::command::Builtin')
        cand = {}
        for f in P.fns:
            if not (f.get('local') and f['kind'] == 'item' and f['args'] >= 2 and f.get('dk') != 'Closure'): continue
            if self.is_an(f['locals'][1]) and f['locals'][2] in self.name and P.types[f['locals'][0]]['s'].startswith('std::option::Option<semantic::program'):
                cand.setdefault(self.name[f['locals'][2]], []).append(f)
        self.main = {k: max(v, key=lambda f: len(f['bb'])) for k, v in cand.items()}
        self.main_ids = {f['id'] for f in self.main.values()}
        self.memo = {}
    def main_entry(self, kind): return need(self.main.get(kind), 'analyser of ' + kind)
    def is_an(self, ti):
        t = self.P.types[ti]
        return bool(t) and t['k'] == 'ref' and t['to'] in self.an_tis
    # ---- nodes ----
    def leaf(self, I, name, ti):
        v = ('s', I.mk('n', name), ti)
        if ti in self.name: I.kids[v[1]] = (name, self.name[ti])
        else:
            t = self.P.types[ti]
            if t.get('box') and t.get('a') and t['a'][0] in self.name: I.kids[I.mk('*', v[1])] = (name, self.name[t['a'][0]])
        return v
    def build(self, I, ti, name, n, depth=0):
        """a part of a node: lists and tuples are explicit"""
        t = self.P.types[ti]
        if ti in self.name: return self.leaf(I, name, ti)
        if t['k'] == 'tuple': return ('a', ti, 0, tuple(self.build(I, x, '%s.%d' % (name, i), n) for i, x in enumerate(t['f'])))
        if t.get('box') and t['s'].startswith('std::boxed::Box<['):
            et = self.P.types[t['a'][0]].get('e')
            if et is not None and (et in self.name or self.P.types[et]['k'] == 'tuple'):
                obj = ('n', ('seq', name))
                I.const_mem[obj] = ('a', None, 'array', tuple(self.build(I, et, '%s[%d]' % (name, i), n) for i in range(n)))
                return ('r', obj, ())
        return self.leaf(I, name, ti)
    def make(self, I, kind, variant, n, sub=None):
        ti = self.ti[kind]
        t = self.P.types[ti]
        vi = 0 if t['k'] == 'struct' else [v['n'] for v in t['v']].index(variant)
        fs = []
        for f in t['v'][vi]['f']:
            v = self.build(I, f[1], f[0], n)
            if sub and f[0] in sub: v = sub[f[0]](I, f[0], f[1])
            fs.append(v)
        return ('a', ti, vi, tuple(fs))
    # ---- context ----
    def analyzer(self, I, ctx=None):
        fs = []; j = 0
        for i, f in enumerate(self.afields):
            t = self.P.types[f[1]]
            if t['k'] == 'ref':
                obj = ('n', 'an_' + f[0])
                I.const_mem[obj] = ('s', I.mk('an', f[0]), t['to'])
                if self.P.types[t['to']]['s'] == 'semantic::error::Errors':
                    et = t['to']
                    I.const_mem[obj] = ('a', et, 0, (('a', self.P.types[et]['v'][0]['f'][0][1], 'vec', ()),))
                fs.append(('r', obj, ()))
            else:
                fs.append(ctx[j] if ctx is not None and ctx[j] is not None else ('s', I.mk('an', f[0]), f[1]))
                j += 1
        I.const_mem[('n', 'an')] = ('a', self.an_ti, 0, tuple(fs))
        return ('r', ('n', 'an'), ())
    def portable(self, I, st, v):
        """a value that means the same in another exploration; None if it is not fully known"""
        if v[0] == 's':
            f = st.facts.get(v[1])
            if f is not None and self.P.types[v[2]]['k'] in ('bool', 'int', 'uint'): return ('k', f, v[2])
            if self.P.types[v[2]]['k'] == 'enum':
                vs = variants_of(I, st, v, v[2])
                if len(vs) == 1 and not self.P.types[v[2]]['v'][list(vs)[0]]['f']: return ('a', v[2], list(vs)[0], ())
            r = reval(I, st, v[1])
            return ('k', r, v[2]) if r is not None else None
        if v[0] == 'k': return v
        if v[0] == 'a':
            fs = tuple(self.portable(I, st, x) for x in v[3])
            return None if any(x is None for x in fs) else ('a', v[1], v[2], fs)
        return None
    def context(self, I, st, a):
        """what an analyser passes on: the value of each of its own (not shared) fields"""
        v = a
        while v[0] == 'r': v = I.read(st, v[1], v[2])
        own = [i for i, f in enumerate(self.afields) if self.P.types[f[1]]['k'] != 'ref']
        if v[0] != 'a': return tuple(None for _ in own)
        return tuple(self.portable(I, st, v[3][i]) for i in own)
    # ---- exploration ----
    def hook(self, I, st, c):
        P = self.P
        fid = c.info.get('id')
        if fid in self.main_ids and c.ats and len(c.args) >= 2:
            v = c.args[1]
            t = I.term(st, v)
            k = I.kids.get(t)
            if k or v[0] == 's':
                n = len([1 for e in st.events() if e[0] == 'sub' and e[2] == t])
                r = I.mk('sub', self.name[c.ats[1]], t, ('n', n))
                st.event(('sub', self.name[c.ats[1]], t, self.context(I, st, c.args[0]), r, c.dti, tuple(self.portable(I, st, x) for x in c.args[2:])))
                return [(st, ('s', r, c.dti))]
        if fid is not None and c.ats and c.ats[0] is not None and P.types[c.ats[0]].get('to') == self.scope_ti:
            args = tuple(I.term(st, x) for x in c.args[1:])
            t = I.mk('scope', c.m, args[:2], ('n', len(st.events())))
            st.event(('scope', self.op.get(fid, c.m), args, t, c.dti))
            if c.dti is not None and P.types[c.dti]['k'] == 'tuple' and not P.types[c.dti]['f']: return [(st, I.unit())]
            return [(st, ('s', t, c.dti))]
        if c.m == 'is_ill_formed' and len(c.args) == 1:
            v = c.args[0]
            x = I.read(st, v[1], v[2]) if v[0] == 'r' else v
            return [(st, ('s', I.mk('ill', I.term(st, x, 3)), I.bool_ti))]
        if c.m in ('into', 'from') and len(c.args) == 1 and c.dti is not None and P.types[c.dti]['k'] in ('enum', 'struct') and P.types[c.dti]['s'].startswith('semantic::program::') and c.args[0][0] == 's':
            return [(st, ('s', I.mk('conv', I.term(st, c.args[0])), c.dti))]
        if self.builtin_ti is not None and c.dti is not None and len(c.args) == 1 and P.types[c.dti]['s'].startswith('std::result::Result<semantic::program::command::Builtin'):
            v = c.args[0]
            x = I.read(st, v[1], v[2]) if v[0] == 'r' else v
            return [(st, ('s', I.mk('builtin', I.term(st, x)), c.dti))]
        return self.sets(I, st, c)
    def sets(self, I, st, c):
        """hash sets with known members: membership is decided member by member"""
        P = self.P
        if c.dti is not None and P.types[c.dti]['s'].startswith('std::collections::HashSet<') and c.m in ('default', 'new', 'with_capacity') and len(c.args) <= 1 and c.local is False:
            return [(st, ('a', c.dti, 'hset', ()))]
        if not c.args or c.ats[0] is None: return None
        t = P.types[c.ats[0]]
        if t['k'] != 'ref' or not P.types[t['to']]['s'].startswith('std::collections::HashSet<'): return None
        obj, path = I.deref(st, c.args[0], t['to'])
        v = I.read(st, obj, path)
        if c.m in ('take', 'replace'):
            I.write(st, obj, path, ('a', t['to'], 'hset', ()) if c.m == 'take' else c.args[1]); return [(st, v)]
        if c.m == 'swap' and len(c.args) == 2:
            o2, p2 = I.deref(st, c.args[1], t['to']); w = I.read(st, o2, p2)
            I.write(st, obj, path, w); I.write(st, o2, p2, v); return [(st, I.unit())]
        if c.m == 'clear': I.write(st, obj, path, ('a', t['to'], 'hset', ())); return [(st, I.unit())]
        if v[0] != 'a' or v[2] != 'hset': return None
        if c.m == 'is_empty': return [(st, I.boolv(not v[3]))]
        if c.m == 'len': return [(st, ('k', len(v[3]), I.usize_ti))]
        if c.m in ('insert', 'contains', 'remove'):
            x = c.args[1]
            if x[0] == 'r': x = I.read(st, x[1], x[2])
            out = []
            def go(s, i):
                if i == len(v[3]):
                    if c.m == 'insert': I.write(s, obj, path, ('a', t['to'], 'hset', v[3] + (x,)))
                    out.append((s, I.boolv(c.m == 'insert'))); return
                a, b = sorted((I.term(s, v[3][i]), I.term(s, x)))
                if a == b: r = 1
                else: q = I.mk('same', a, b); r = s.facts.get(q)
                if r is None:
                    s2 = s.copy(); s2.facts[q] = 1; s.facts[q] = 0
                    hit(s2, i); go(s, i + 1)
                elif r: hit(s, i)
                else: go(s, i + 1)
            def hit(s, i):
                if c.m == 'remove': I.write(s, obj, path, ('a', t['to'], 'hset', v[3][:i] + v[3][i + 1:]))
                out.append((s, I.boolv(c.m != 'insert')))
            go(st, 0)
            return out
        return None
    def explore(self, kind, variant=None, n=2, ctx=None, extra=(), max_visits=None, fn=None, sub=None):
        """all paths of the analysis of one node"""
        I = Interp(self.P, hooks=[self.hook, ident_copy], opaque=lambda g: '::fmt' in g['n'] or g['n'].startswith(('symbol::', 'semantic::error::Error::')), max_visits=max_visits or n + 2, max_depth=30)
        I.kids = {}
        a = self.analyzer(I, ctx)
        I.node = self.make(I, kind, variant, n, sub)
        f = fn or self.main_entry(kind)
        ex = []
        for i in range(3, f['args'] + 1):
            v = extra[i - 3] if i - 3 < len(extra) else None
            ex.append(v if v is not None else ('s', I.mk('extra', ('n', i - 3)), f['locals'][i]))
        res = I.run(f, [a, I.node] + ex)
        return I, [s for s in res if s.end != 'infeasible']
    # ---- what a path did ----
    def reports(self, I, st):
        return [e for e in st.events() if e[0] == 'push' and e[6] is not None and self.is_errlist(e[6])]
    def is_errlist(self, ti):
        t = self.P.types[ti]
        while t and t['k'] == 'ref': t = self.P.types[t['to']]
        return bool(t) and t['s'].startswith('std::vec::Vec<') and self.err_ti in (t.get('a') or [])
    def subs(self, I, st): return [e for e in st.events() if e[0] == 'sub']
    def accepted(self, I, st):
        """does the path yield a program part?  True, False or None (unknown)"""
        r = st.ret
        if st.end != 'return' or r is None: return None
        vs = vnames(I, st, r, r[1] if r[0] == 'a' else r[2])
        if vs <= {'Some', 'Ok'}: return True
        if vs <= {'None', 'Err'}: return False
        return None
    def sub_ok(self, I, st, e):
        vs = vnames(I, st, ('s', e[4], e[5]), e[5])
        return True if vs <= {'Some', 'Ok'} else False if vs <= {'None', 'Err'} else None
    def other_cause(self, I, st):
        """a reason on this path, other than the context, to reject the node"""
        for e in st.events():
            if e[0] == 'sub' and self.sub_ok(I, st, e) is not True: return 'a part of it'
            if e[0] == 'scope' and e[4] is not None and self.P.types[e[4]]['s'].startswith('std::result::Result<') and vnames(I, st, ('s', e[3], e[4]), e[4]) != {'Ok'}: return 'a name in it'
        for t, v in st.facts.items():
            k = I.T.t[t]
            if k[0] == 'ill' and v: return 'an ill-formed part'
            if k[0] == 'same' and v: return 'equal keys'
        return None
    def trace(self, I, st):
        out = []
        for e in st.events():
            if e[0] == 'sub': out.append((e[1], I.show(e[2], 6), e[3]))
            elif e[0] == 'scope': out.append(('scope', e[1], tuple(I.show(x, 5) for x in e[2])))
            elif e[0] == 'push' and e[6] is not None and self.is_errlist(e[6]): out.append(('report', I.show(I.term(st, e[3]), 3)))
        return out
    # ---- all nodes ----
    def shapes(self, ns=(0, 1, 2)):
        """(label, kind, variant, list length) for every kind of syntax node"""
        out = []
        for kind in self.main:
            t = self.P.types[self.ti[kind]]
            for v in ([None] if t['k'] == 'struct' else [v['n'] for v in t['v']]):
                vi = 0 if v is None else [x['n'] for x in t['v']].index(v)
                lists = any(self.is_list(f[1]) for f in t['v'][vi]['f'])
                for n in (ns if lists else (0,)):
                    out.append((kind + ('.' + v if v else '') + ('/%d' % n if lists else ''), kind, v, n))
        return out
    def is_list(self, ti):
        t = self.P.types[ti]
        if not (t.get('box') and t['s'].startswith('std::boxed::Box<[')): return False
        et = self.P.types[t['a'][0]].get('e')
        return et is not None and (et in self.name or self.P.types[et]['k'] == 'tuple')
