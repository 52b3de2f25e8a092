"""Command blocks against a model of the operating system.

A command block of the program is given explicitly (how many commands, pipelines, arguments, redirections); the
evaluator's code is followed from there, and what it asks of the operating system (pipes, files, processes, threads) is
recorded on each path, every request succeeding on one path and failing on another."""
from values import *
import maps as _maps
import re

OWN = ('std::vec::Vec<u8>', 'std::string::String', 'std::ffi::OsString', 'std::path::PathBuf')
BOX = ('std::boxed::Box<[u8]>', 'std::boxed::Box<std::ffi::OsStr>', 'std::boxed::Box<std::path::Path>', 'std::boxed::Box<str>')
REF = ('[u8]', 'std::ffi::OsStr', 'std::path::Path', 'str')
CONV = {'from', 'into', 'from_vec', 'into_vec', 'into_bytes', 'into_boxed_os_str', 'into_os_string', 'into_boxed_slice', 'as_ref', 'as_bytes', 'as_os_str', 'new',
        'from_bytes', 'as_path', 'to_owned', 'to_os_string', 'into_boxed_path', 'deref', 'borrow', 'clone', 'to_vec', 'as_slice', 'to_path_buf', 'into_string', 'as_str', 'into_owned', 'from_encoded_bytes_unchecked', 'as_encoded_bytes'}
HANDLES = ('os_pipe::PipeReader', 'os_pipe::PipeWriter', 'std::fs::File', 'std::os::fd::OwnedFd', 'std::process::Stdio', 'std::os::fd::owned::OwnedFd', 'std::process::ChildStdin', 'std::process::ChildStdout', 'std::process::ChildStderr')

class Lit:
    """bytes of an argument: ints or symbols"""
    def __init__(s, bs=(), sym=None): s.bs = tuple(bs) if not isinstance(bs, str) else tuple(bs.encode()); s.sym = sym

class World:
    def __init__(self, P):
        self.P = P
        self.block_ti = need(ty(P, 'semantic::program::command::CommandBlock'), 'type of command blocks')
        c = [f for f in P.fns if f.get('local') and f['kind'] == 'item' and f['args'] == 3 and f.get('dk') != 'Closure'
             and tnorm(P.types[f['locals'][1]]['s']) == '&mut runtime::Runtime' and tnorm(P.types[f['locals'][2]]['s']) == '&semantic::program::command::CommandBlock'
             and tnorm(P.types[f['locals'][0]]['s']) == 'std::result::Result<runtime::value::Value, runtime::panic::Panic>']
        callers_ = callers(P)
        ids = {f['id'] for f in c}
        c = [f for f in c if not (callers_.get(f['id'], set()) & (ids - {f['id']}))] or c
        self.entry = need(c, 'evaluator of a command block')[0]
        self.value_ti = need(ty(P, 'runtime::value::Value'), 'Value')
    # ---- building the block ----
    def ti(self, *path):
        """type index of the field reached from the block type by field names"""
        raise NotImplementedError
    def seq(self, I, boxti, items):
        self.n += 1
        obj = ('n', 'W:%d' % self.n)
        I.const_mem[obj] = ('a', None, 'array', tuple(items))
        return ('r', obj, ())
    def elem(self, boxti): return self.P.types[self.P.types[boxti]['a'][0]]['e']
    def struct(self, I, ti, variant, vals, name):
        t = self.P.types[ti]
        vi = 0 if t['k'] == 'struct' else [v['n'] for v in t['v']].index(variant)
        fs = []
        for f in t['v'][vi]['f']:
            if f[0] in vals:
                x = vals[f[0]]
                fs.append(x(f[1]) if callable(x) else x)
            else: fs.append(('s', I.mk('n', name + '.' + f[0]), f[1]))
        return ('a', ti, vi, tuple(fs))
    def bytes(self, I, lit):
        u8 = self.P.ty_by_s['u8']
        if lit.sym: return tuple(('s', I.mk(lit.sym[0], ('n', i)), u8) for i in range(lit.sym[1]))
        return tuple(('k', b, u8) if isinstance(b, int) else b for b in lit.bs)
    def unit(self, I, u, name):
        """an ArgUnit: Lit or ('$', slot)"""
        def f(ti):
            if isinstance(u, Lit): return self.struct(I, ti, 'Literal', {'0': lambda t: self.seq(I, t, self.bytes(I, u))}, name)
            return self.struct(I, ti, 'Dollar', {'slot_ix': lambda t: self.slot(I, t, u[1])}, name)
        return f
    def slot(self, I, ti, k):
        t = self.P.types[ti]
        if t['k'] in ('int', 'uint'): return ('k', k, ti)
        return ('a', ti, 0, tuple(self.slot(I, x[1], k) for x in t['v'][0]['f']))
    def part(self, I, p, name):
        def f(ti):
            if isinstance(p, Lit) or p[0] == '$': return self.struct(I, ti, 'Unit', {'0': self.unit(I, p, name)}, name)
            if p[0] in ('Home', 'Star', 'Percent'): return self.struct(I, ti, p[0], {}, name)
            if p[0] == 'Range': return self.struct(I, ti, 'Range', {'0': lambda t: ('k', p[1] & (2**64 - 1), t), '1': lambda t: ('k', p[2] & (2**64 - 1), t)}, name)
            if p[0] == 'Collection': return self.struct(I, ti, 'Collection', {'0': lambda t: self.seq(I, t, [self.unit(I, u, '%s.%d' % (name, i))(self.elem(t)) for i, u in enumerate(p[1])])}, name)
            if p[0] == 'CharClass': return self.struct(I, ti, 'CharClass', {'0': lambda t: self.seq(I, t, self.bytes(I, p[1]))}, name)
            raise KeyError(p)
        return f
    def argument(self, I, parts, name):
        if isinstance(parts, str): parts = [Lit(parts)]
        return lambda ti: self.struct(I, ti, None, {'parts': lambda t: self.seq(I, t, [self.part(I, p, '%s[%d]' % (name, i))(self.elem(t)) for i, p in enumerate(parts)])}, name)
    def redir(self, I, r, name):
        def f(ti):
            if r[0] == '<': return self.struct(I, ti, 'Input', {'literal': lambda t: ('k', 0, t), 'source': self.argument(I, r[1], name)}, name)
            if r[0] == '<<': return self.struct(I, ti, 'Input', {'literal': lambda t: ('k', 1, t), 'source': self.argument(I, r[1], name)}, name)
            fd = lambda t: ('k', r[1], t) if isinstance(r[1], int) else ('s', I.mk('n', r[1]), t)
            def target(t):
                if r[0] == '>': return self.struct(I, t, 'Overwrite', {'0': self.argument(I, r[2], name)}, name)
                if r[0] == '>>': return self.struct(I, t, 'Append', {'0': self.argument(I, r[2], name)}, name)
                return self.struct(I, t, 'Fd', {'0': lambda t2: ('k', r[2], t2) if isinstance(r[2], int) else ('s', I.mk('n', r[2]), t2)}, name)
            return self.struct(I, ti, 'Output', {'source': fd, 'target': target}, name)
        return f
    def basic(self, I, b, name):
        def f(ti):
            return self.struct(I, ti, None, {
                'program': self.argument(I, b.get('program', name), name + '.program'),
                'env': lambda t: self.seq(I, t, [self.tuple_(I, self.elem(t), [self.unit(I, k, name + '.key'), self.argument(I, v, name + '.env')]) for k, v in b.get('env', [])]),
                'arguments': lambda t: self.seq(I, t, [self.argument(I, a, '%s.arg%d' % (name, i))(self.elem(t)) for i, a in enumerate(b.get('args', []))]),
                'redirections': lambda t: self.seq(I, t, [self.redir(I, r, '%s.redir%d' % (name, i))(self.elem(t)) for i, r in enumerate(b.get('redirs', []))]),
                'abort_on_error': lambda t: ('k', 1 if b.get('abort', True) else 0, t)}, name)
        return f
    def tuple_(self, I, ti, fs): return ('a', ti, 0, tuple(f(t) for f, t in zip(fs, self.P.types[ti]['f'])))
    def command(self, I, c, name):
        def f(ti):
            if isinstance(c, dict) and 'builtin' in c:
                return self.struct(I, ti, 'Builtin', {
                    'program': lambda t: ('a', t, [v['n'] for v in self.P.types[t]['v']].index(c['builtin']), ()),
                    'arguments': lambda t: self.seq(I, t, [self.argument(I, a, '%s.arg%d' % (name, i))(self.elem(t)) for i, a in enumerate(c.get('args', []))]),
                    'abort_on_error': lambda t: ('k', 1 if c.get('abort', True) else 0, t)}, name)
            return self.struct(I, ti, 'External', {
                'head': self.basic(I, c[0], name + '0'),
                'tail': lambda t: self.seq(I, t, [self.basic(I, b, '%s%d' % (name, i + 1))(self.elem(t)) for i, b in enumerate(c[1:])])}, name)
        return f
    def block(self, I, kind, cmds):
        self.n = 0
        return self.struct(I, self.block_ti, None, {
            'kind': lambda t: ('a', t, [v['n'] for v in self.P.types[t]['v']].index(kind), ()),
            'head': self.command(I, cmds[0], 'c0'),
            'tail': lambda t: self.seq(I, t, [self.command(I, c, 'c%d' % (i + 1))(self.elem(t)) for i, c in enumerate(cmds[1:])])}, 'block')
    # ---- values of bytes ----
    def cls(self, ti):
        if ti is None: return None
        t = self.P.types[ti]
        s = t['s']
        if s in OWN: return 'own'
        if s in BOX: return 'box'
        if t['k'] == 'ref':
            to = self.P.types[t['to']]['s']
            if to in REF: return 'ref'
            if to.startswith('[u8; '): return 'ref'
            if self.cls(t['to']): return 'ref' + self.cls(t['to'])
        if s.startswith("std::borrow::Cow<"): return 'cow'
        return None
    def content(self, I, st, v):
        """bytes of a string-like value: tuple of byte values, or ('t', term) when unknown"""
        for _ in range(8):
            if v[0] == 'r': v = I.read(st, v[1], v[2])
            elif v[0] == 'b': return tuple(('k', x, None) for x in (v[1] if not isinstance(v[1], str) else v[1].encode()))
            elif v[0] == 'a' and v[2] in ('vec', 'array', 'list'): return v[3]
            elif v[0] == 'a' and v[1] is not None and self.P.types[v[1]]['s'].startswith('std::borrow::Cow<'): v = v[3][0]
            elif v[0] == 'a' and len(v[3]) == 1: v = v[3][0]
            else: break
        return ('t', I.term(st, v, 12))
    def text(self, I, st, v):
        """comparable form of a string-like value"""
        c = v if isinstance(v, tuple) and (not v or isinstance(v[0], tuple)) else self.content(I, st, v) if not (isinstance(v, tuple) and v[0] == 't') else v
        if c and c[0] == 't': return c
        out = []
        for x in c:
            x = I.norm(st, x)
            if x[0] == 'r': x = I.norm(st, I.read(st, x[1], x[2]))
            out.append(x[1] if x[0] == 'k' else ('t', x[1] if x[0] == 's' else I.term(st, x)))
        return tuple(out)
    def own(self, I, st, ti, c):
        if c and c[0] == 't': return ('s', c[1], ti)
        k = self.cls(ti)
        if k == 'own': return ('a', ti, 'vec', c)
        if k == 'box' or (k or '').startswith('ref'): return ('r', I.alloc(st, ('a', None, 'array', c)), ())
        return ('s', I.mk('bytesval', tuple(I.term(st, x) for x in c)), ti)
    # ---- handles ----
    def handle(self, I, st, v, depth=6):
        """term of the file handle inside a value"""
        for _ in range(depth):
            if v[0] == 'r': v = I.read(st, v[1], v[2])
            elif v[0] == 's':
                k = I.T.t[v[1]]
                return v[1] if k[0] in ('fd', 'file') else None
            elif v[0] == 'a' and len(v[3]) == 1: v = v[3][0]
            else: return None
        return None
    def desc(self, I, t):
        """('pipe', n, 'r'|'w') | ('std', name) | ('open', n) of a handle, clones resolved"""
        k = I.T.t[t]
        if k[0] == 'fd': return I.fds[k[1][1]]
        return None
    def walk(self, I, st, v, ti, out, depth=8):
        """handles and processes owned by a value"""
        if depth <= 0: return
        t = self.P.types[ti] if ti is not None else None
        if v[0] == 's':
            k = I.T.t[v[1]]
            if k[0] in ('fd', 'proc', 'child', 'jh'): out.append(v[1])
            return
        if t is not None and t['k'] in ('ref', 'ptr'): return
        if v[0] == 'r':
            if t is None or t.get('box'): self.walk(I, st, I.read(st, v[1], v[2]), t['a'][0] if t and t.get('a') else None, out, depth - 1)
            return
        if v[0] == 'a':
            if v[2] in ('vec', 'array', 'list', 'cell'):
                for x in v[3]: self.walk(I, st, x, None if x[0] != 'r' else -1 if False else None, out, depth - 1)
                return
            fts = [None] * len(v[3])
            if v[1] is not None:
                vt = self.P.types[v[1]]
                if vt['k'] in ('struct', 'enum') and vt.get('v') and isinstance(v[2], int) and v[2] < len(vt['v']): fts = [f[1] for f in vt['v'][v[2]]['f']]
                elif vt['k'] in ('tuple', 'closure') and vt.get('f'): fts = [f if isinstance(f, int) else f[1] for f in vt['f']]
            for i, x in enumerate(v[3]): self.walk(I, st, x, fts[i] if i < len(fts) else None, out, depth - 1)
    def dropped(self, I, st, v, ti, fr, line):
        out = []
        self.walk(I, st, v, ti, out)
        for t in out: st.event(('drop', t, line))
        return None
    # ---- operating system ----
    def ok(self, c, v): return ('a', c.dti, 0, (v,))
    def err(self, I, st, c, what):
        """an I/O error"""
        st.ctr += 1
        et = self.P.types[c.dti]['v'][1]['f'][0][1]
        t = I.mk('ioerr', what, ('n', st.ctr))
        st.event(('fail', what, t, c.line))
        return ('a', c.dti, 1, (('s', t, et),))
    def okti(self, c): return self.P.types[c.dti]['v'][0]['f'][0][1]
    def newfd(self, I, st, ti, d):
        n = len(I.fds)
        I.fds.append(d)
        t = I.mk('fd', ('n', n))
        st.event(('fd', t, d))
        return ('s', t, ti)
    def both(self, I, st, c, what, make):
        """success on one path and failure on another"""
        if what in self.nofail: return [(st, self.ok(c, make(st)))]
        s2 = st.copy()
        return [(st, self.ok(c, make(st))), (s2, self.err(I, s2, c, what))]
    def proc(self, I, st, v):
        for _ in range(5):
            if v[0] == 'r': v = I.read(st, v[1], v[2])
            elif v[0] == 's' and I.T.t[v[1]][0] == 'proc': return v[1]
            elif v[0] == 's':
                return None
            elif v[0] == 'a' and len(v[3]) == 1: v = v[3][0]
            else: return None
        return None
    def hook(self, I, st, c):
        P = self.P
        n, a, m = c.name, c.args, c.m
        if c.local:
            if c.dti == self.value_ti and len(a) == 2 and c.ats[1] is not None and P.types[c.ats[1]]['s'].endswith('SlotIx') and I.slots is not None:
                s = a[1]
                while s[0] == 'a': s = s[3][0]
                if s[0] == 'k' and s[1] in I.slots: return [(st, I.slots[s[1]])]
            return None
        r = self.bytes_hook(I, st, c)
        if r is not None: return r
        if n == 'os_pipe::pipe':
            def mk(s):
                tt = self.okti(c)
                i = I.npipes; I.npipes += 1
                f = P.types[tt]['f']
                return ('a', tt, 0, (self.newfd(I, s, f[0], ('pipe', i, 'r')), self.newfd(I, s, f[1], ('pipe', i, 'w'))))
            return self.both(I, st, c, 'pipe', mk)
        if n.startswith('os_pipe::dup_'):
            return self.both(I, st, c, 'dup', lambda s: self.newfd(I, s, self.okti(c), ('std', n[len('os_pipe::dup_'):])))
        if m == 'try_clone' and a:
            h = self.handle(I, st, a[0])
            if h is not None: return self.both(I, st, c, 'dup', lambda s: self.newfd(I, s, self.okti(c), self.desc(I, h)))
        if m in ('into_raw_fd', 'from_raw_fd', 'from', 'into', 'as_raw_fd', 'into_inner') and len(a) == 1 and c.dti is not None:
            h = self.handle(I, st, a[0])
            if h is not None and m != 'as_raw_fd' and (m.endswith('raw_fd') or P.types[c.dti]['s'] in HANDLES): return [(st, ('s', h, c.dti))]
        # files
        if n.startswith('std::fs::OpenOptions::') or n == 'std::fs::File::options':
            if m in ('new', 'options'): return [(st, ('s', I.mk('oo', ()), c.dti))]
            obj, path, v = I.deref(st, a[0], None)[0], I.deref(st, a[0], None)[1], None
            v = I.read(st, obj, path)
            fl = dict(I.T.t[v[1]][1][1]) if v[0] == 's' and I.T.t[v[1]][0] == 'oo' and len(I.T.t[v[1]][1]) else {}
            if m in ('read', 'write', 'append', 'truncate', 'create', 'create_new', 'mode', 'custom_flags'):
                x = I.norm(st, a[1])
                fl[m] = bool(x[1]) if x[0] == 'k' else '?'
                I.write(st, obj, path, ('s', I.mk('oo', ('n', tuple(sorted(fl.items())))), v[2]))
                return [(st, a[0])]
            if m == 'open':
                return self.openfile(I, st, c, {k: x for k, x in fl.items() if x}, a[1])
        if n in ('std::fs::File::open', 'std::fs::File::create', 'std::fs::File::create_new'):
            return self.openfile(I, st, c, {'open': {'read': True}, 'create': {'write': True, 'create': True, 'truncate': True}, 'create_new': {'write': True, 'create_new': True}}[m], a[0])
        if m in ('write_all', 'write') and len(a) == 2 and self.handle(I, st, a[0]) is not None:
            h = self.handle(I, st, a[0])
            st.event(('write', self.desc(I, h), self.text(I, st, a[1]), m, c.line))
            return self.both(I, st, c, 'write', lambda s: I.unit() if m == 'write_all' else I.fresh(s, self.okti(c), 'written'))
        if m in ('read_to_end', 'read_to_string', 'read_exact', 'read') and len(a) == 2 and self.handle(I, st, a[0]) is not None:
            h = self.handle(I, st, a[0])
            d = self.desc(I, h)
            obj, path = I.deref(st, a[1], pointee(I, c.ats[1]))
            old = I.read(st, obj, path)
            st.event(('read', d, m, c.line))
            whole = m == 'read_to_end' and old[0] == 'a' and not old[3]
            I.write(st, obj, path, ('s', I.mk('data' if whole else 'part', str(d), ('n', st.ctr)), pointee(I, c.ats[1])))
            return self.both(I, st, c, 'read', lambda s: I.fresh(s, self.okti(c), 'count'))
        if n in ('std::io::copy',) and len(a) == 2 and self.handle(I, st, a[0]) is not None and pointee(I, c.ats[1]) is not None and P.types[pointee(I, c.ats[1])]['s'] == 'std::vec::Vec<u8>':
            d = self.desc(I, self.handle(I, st, a[0]))
            obj, path = I.deref(st, a[1], pointee(I, c.ats[1]))
            old = I.read(st, obj, path)
            st.event(('read', d, m, c.line))
            I.write(st, obj, path, ('s', I.mk('data' if old[0] == 'a' and not old[3] else 'part', str(d), ('n', st.ctr)), pointee(I, c.ats[1])))
            return self.both(I, st, c, 'read', lambda s: I.fresh(s, self.okti(c), 'count'))
        # processes
        if n == 'std::process::Command::new':
            i = I.nprocs; I.nprocs += 1
            t = I.mk('proc', ('n', i))
            st.event(('new', t, self.text(I, st, a[0])))
            return [(st, ('s', t, c.dti))]
        if n.startswith('std::process::Command::') or n.endswith('CommandExt>::exec') or 'CommandExt' in n or 'CommandExt' in c.info.get('decl', ''):
            p = self.proc(I, st, a[0])
            if p is None: return None
            if m in ('arg', 'arg0', 'current_dir', 'env_remove'): st.event((m, p, self.text(I, st, a[1])))
            elif m == 'env': st.event((m, p, self.text(I, st, a[1]), self.text(I, st, a[2])))
            elif m in ('stdin', 'stdout', 'stderr'):
                h = self.handle(I, st, a[1])
                st.event((m, p, self.desc(I, h) if h is not None else ('?', I.show(I.term(st, a[1]), 4)), h))
            elif m == 'args':
                return self.args(I, st, c, p)
            elif m == 'spawn':
                def mk(s):
                    i = I.nchild; I.nchild += 1
                    t = I.mk('child', ('n', i))
                    s.event(('spawn', p, t))
                    return ('s', t, self.okti(c))
                if 'spawn' in self.nofail: return [(st, self.ok(c, mk(st)))]
                s2 = st.copy()
                s2.event(('nospawn', p, None))
                return [(st, self.ok(c, mk(st))), (s2, self.err(I, s2, c, 'spawn'))]
            elif m == 'exec':
                st.event(('execve', p))
                st.ctr += 1
                t = I.mk('ioerr', 'exec', ('n', st.ctr))
                st.event(('fail', 'exec', t, c.line))
                return [(st, ('s', t, c.dti))]
            else:
                st.event(('procop', m, p, c.line))
                if c.dti is not None and P.types[c.dti]['k'] != 'ref': return None
            return [(st, a[0])]
        if n.startswith('std::process::Child::'):
            v = a[0]
            while v[0] == 'r': v = I.read(st, v[1], v[2])
            if v[0] == 's' and I.T.t[v[1]][0] == 'child' and m == 'wait':
                out = []
                for kind in self.outcomes:
                    s2 = st.copy()
                    if kind == 'err':
                        s2.event(('wait', v[1], kind, None)); out.append((s2, self.err(I, s2, c, 'wait'))); continue
                    i = s2.ctr = s2.ctr + 1
                    t = I.mk('exit', kind, ('n', i))
                    s2.event(('wait', v[1], kind, t))
                    out.append((s2, self.ok(c, ('s', t, self.okti(c)))))
                return out
            st.event(('childop', m, I.term(st, v), c.line))
            return None
        if n.startswith('std::process::ExitStatus::') or 'ExitStatusExt' in n or 'ExitStatusExt' in c.info.get('decl', ''):
            v = a[0]
            while v[0] == 'r': v = I.read(st, v[1], v[2])
            if v[0] == 's' and I.T.t[v[1]][0] == 'exit':
                kind = I.T.t[v[1]][1]
                if m == 'success': return [(st, I.boolv(kind == 'zero'))]
                if m in ('code', 'signal', 'core_dumped', 'stopped_signal', 'continued', 'into_raw'):
                    if m == 'core_dumped' or m == 'continued': return [(st, I.fresh(st, c.dti, m))]
                    if m == 'into_raw': return None
                    it = P.types[c.dti]['v'][1]['f'][0][1]
                    if m == 'code' and kind == 'zero': return [(st, some(I, c.dti, ('k', 0, it)))]
                    if m == 'code' and kind == 'code':
                        t = I.mk('code', v[1]); st.iv.setdefault(t, (1, 255))
                        return [(st, some(I, c.dti, ('s', t, it)))]
                    if m == 'signal' and kind == 'signal':
                        t = I.mk('signal', v[1]); st.iv.setdefault(t, (1, 64))
                        return [(st, some(I, c.dti, ('s', t, it)))]
                    return [(st, none(I, c.dti))]
        if n in ('std::thread::spawn',):
            i = st.ctr = st.ctr + 1
            t = I.mk('jh', ('n', i))
            st.event(('thread', t, c.line))
            def done(I, s, v):
                s.event(('thread-end', t))
                s.mem[('n', ('jh', t))] = v
                r = ('s', t, c.dti)
                if c.k is not None: return c.k(I, s, r)
                I.ret_to(s, c.dest, c.target, r)
                return None
            r = I.invoke(st, a[0], [], None, None, None, c.line, done)
            return 'entered' if r is None else ('states', r)
        if n.startswith('std::thread::JoinHandle::') and m == 'join':
            v = a[0]
            if v[0] == 's' and I.T.t[v[1]][0] == 'jh':
                st.event(('join', v[1]))
                return [(st, self.ok(c, I.obj_value(st, ('n', ('jh', v[1])))))]
        if n == 'std::env::set_current_dir':
            st.event(('chdir', self.text(I, st, a[0])))
            return self.both(I, st, c, 'chdir', lambda s: I.unit())
        if n in ('std::env::var_os', 'std::env::var'):
            it = P.types[c.dti]['v'][1 if 'Option' in P.types[c.dti]['s'] else 0]['f'][0][1]
            nm = self.text(I, st, a[0])
            st.event(('getenv', nm))
            if n.endswith('var_os'):
                # the environment does not change on the way
                out = []
                for y in (1, 0):
                    s2 = st.copy()
                    if I.assume(s2, I.mk('isset', ('n', nm)), y): out.append((s2, some(I, c.dti, self.own(I, s2, it, (('s', I.mk('home', ('n', 0)), P.ty_by_s['u8']),))) if y else none(I, c.dti)))
                return out
        if n == 'glob::glob':
            nth = sum(1 for e in st.events() if e[0] == 'glob')
            st.event(('glob', self.text(I, st, a[0])))
            def mk(s, shape):
                # matches: an arbitrary path, or an entry which cannot be read
                ti = self.okti(c)
                rt = self.globresult()
                pt, et = P.types[rt]['v'][0]['f'][0][1], P.types[rt]['v'][1]['f'][0][1]
                els = []
                for j, y in enumerate(shape):
                    t = I.mk('globbed', ('n', nth), ('n', j))
                    if y: els.append(('a', rt, 0, (('a', pt, 'vec', (('s', t, P.ty_by_s['u8']),)),))); s.event(('found', t))
                    else: els.append(('a', rt, 1, (('s', I.mk('globerr', ('n', nth), ('n', j)), et),)))
                return ('a', ti, 'list', tuple(els))
            out = []
            for k in self.nglob:
                s2 = st.copy(); out.append((s2, self.ok(c, mk(s2, (1,) * k if isinstance(k, int) else k))))
            if 'glob' in self.nofail: return out
            s2 = st.copy(); s2.event(('fail', 'glob', None, c.line))
            out.append((s2, ('a', c.dti, 1, (('s', I.mk('patternerr'), P.types[c.dti]['v'][1]['f'][0][1]),))))
            return out
        if n in ('std::mem::drop', 'core::mem::drop'):
            self.dropped(I, st, a[0], c.ats[0], None, c.line)
            return [(st, I.unit())]
        return self.maps(I, st, c)
    def maps(self, I, st, c):
        t = self.P.types[c.ats[0]] if c.args and c.ats[0] is not None else None
        if t is not None and t['k'] == 'ref' and self.P.types[t['to']]['s'].startswith('std::collections::HashMap<') and len(c.args) > 1:
            k = self.keyname(I, st, c.args[1])
            if k is not None: c.args = [c.args[0], ('k', k, None)] + list(c.args[2:])
        return _maps.maps(I, st, c)
    def keyname(self, I, st, v):
        """a dictionary key which is a fixed string"""
        if v[0] == 'k' and isinstance(v[1], str): return v[1]
        t = I.term(st, v, 12)
        p = tls_of(I, t)
        if p is not None:
            for k, s in tls_strings(self.P).items():
                if k == p or k.startswith(p + '::') or k.endswith(p): return s
            return None
        b = find_bytes(I, t)
        return b[0].decode('latin1') if len(b) == 1 else None
    def globresult(self):
        for i, t in enumerate(self.P.types):
            if t and t['s'].startswith('std::result::Result<std::path::PathBuf, glob::GlobError>'): return i
        need(None, 'type of glob results')
    def openfile(self, I, st, c, flags, path):
        d = ('file', tuple(sorted(flags)), self.text(I, st, path))
        def mk(s):
            s.event(('open', d))
            return self.newfd(I, s, self.okti(c), d)
        if 'open' in self.nofail: return [(st, self.ok(c, mk(st)))]
        s2 = st.copy()
        return [(st, self.ok(c, mk(st))), (s2, self.err(I, s2, c, 'open'))]
    def args(self, I, st, c, p):
        from models import drive
        ti = c.ats[1]; v = c.args[1]
        if v[0] == 'r': v = ('a', None, 'list', tuple(('r', v[1], v[2] + (('x', ('k', i, I.usize_ti), None),)) for i in range(len(I.read(st, v[1], v[2])[3])))) if I.read(st, v[1], v[2])[0] == 'a' else v
        if v[0] == 'a' and v[2] in ('vec', 'array'): v = ('a', v[1], 'list', v[3])
        obj = I.alloc(st, v)
        def body(s, item, cont):
            s.event(('arg', p, self.text(I, s, item)))
            return cont(s)
        def done(s):
            if c.k is not None: return c.k(I, s, c.args[0])
            I.ret_to(s, c.dest, c.target, c.args[0])
            return None
        r = drive(I, st, obj, ti, body, done, I.max_visits, c.line)
        return 'entered' if r is None else ('states', r)
    def bytes_hook(self, I, st, c):
        """strings, paths and byte vectors are their bytes"""
        P = self.P
        a, m, n = c.args, c.m, c.name
        if len(a) == 1 and c.dti is not None and m in CONV:
            k, d = self.cls(c.ats[0]), self.cls(c.dti)
            dt = P.types[c.dti]['s']
            if k and d and d != 'cow':
                if d.startswith('ref'):
                    v = a[0]
                    for _ in range(6):
                        if v[0] != 'r': break
                        w = I.read(st, v[1], v[2])
                        if w[0] == 'r': v = w
                        elif w[0] == 'a' and w[1] is not None and P.types[w[1]]['s'].startswith('std::borrow::Cow<'):
                            v = w[3][0] if w[3][0][0] == 'r' else ('r', v[1], v[2] + (('d', w[2]), ('f', 0, None)))
                        elif w[0] == 's': return [(st, ('s', w[1], c.dti))]
                        elif w[0] == 'b': return [(st, w)]
                        else: return [(st, v)]
                    if v[0] == 'b': return [(st, v)]
                    if v[0] == 's': return [(st, ('s', v[1], c.dti))]
                    return None
                cc = self.content(I, st, a[0])
                return [(st, self.own(I, st, c.dti, cc))]
            if k and d == 'cow':
                vs = [v['n'] for v in P.types[c.dti]['v']]
                if k.startswith('ref'): return [(st, ('a', c.dti, vs.index('Borrowed'), (a[0],)))]
                return [(st, ('a', c.dti, vs.index('Owned'), (self.own(I, st, P.types[c.dti]['v'][vs.index('Owned')]['f'][0][1], self.content(I, st, a[0])),)))]
            if k and m == 'into_string' and dt.startswith('std::result::Result<'):
                rt = P.types[c.dti]
                cc = self.content(I, st, a[0])
                if 'utf8' in self.nofail: return [(st, ('a', c.dti, 0, (self.own(I, st, rt['v'][0]['f'][0][1], cc),)))]
                s2 = st.copy()
                s2.event(('fail', 'utf8', None, c.line))
                return [(st, ('a', c.dti, 0, (self.own(I, st, rt['v'][0]['f'][0][1], cc),))), (s2, ('a', c.dti, 1, (self.own(I, s2, rt['v'][1]['f'][0][1], cc),)))]
        if m == 'to_string' and len(a) == 1 and a[0][0] == 'r':
            v = I.norm(st, I.read(st, a[0][1], a[0][2]))
            if v[0] == 'k' and v[2] is not None and P.types[v[2]]['k'] in ('int', 'uint', 'bool'):
                s = ('true' if v[1] else 'false') if P.types[v[2]]['k'] == 'bool' else str(I.signed(v[1], v[2]))
                return [(st, self.own(I, st, c.dti, tuple(('k', b, P.ty_by_s['u8']) for b in s.encode())))]
            vt = v[2] if v[0] == 's' else v[1] if v[0] == 'a' else None
            if vt is not None and P.types[vt]['k'] == 'struct' and len(P.types[vt]['v'][0]['f']) == 1 and P.types[P.types[vt]['v'][0]['f'][0][1]]['k'] == 'float': v = ('s', I.term(st, v), vt)
            elif v[0] != 's' or P.types[v[2]]['k'] not in ('int', 'uint', 'bool', 'float'): v = None
            if v is not None:
                # the text of a number as one token; it has no character with a meaning in patterns
                t = I.mk('text', I.mk('call', n, (v[1],)))
                st.nots[t] = st.nots.get(t, frozenset()) | frozenset((42, 47, 63, 91, 93))
                return [(st, self.own(I, st, c.dti, (('s', t, P.ty_by_s['u8']),)))]
        if c.dti is not None and self.cls(c.dti) == 'own' and m in ('new', 'with_capacity', 'default') and n.startswith(('std::', '<std::')) and len(a) <= 1 and not (a and self.cls(c.ats[0])):
            return [(st, ('a', c.dti, 'vec', ()))]
        if len(a) == 2 and c.ats[0] is not None and P.types[c.ats[0]]['k'] == 'ref' and self.cls(P.types[c.ats[0]]['to']) == 'own' and m in ('push', 'push_str', 'extend_from_slice', 'extend', 'append'):
            obj, path = I.deref(st, a[0], P.types[c.ats[0]]['to'])
            v = I.read(st, obj, path)
            t = P.types[P.types[c.ats[0]]['to']]['s']
            if v[0] != 'a': return None
            if t == 'std::vec::Vec<u8>' and m == 'push':
                I.write(st, obj, path, ('a', v[1], 'vec', v[3] + (a[1],)))
                return [(st, I.unit())]
            if t == 'std::path::PathBuf' and m == 'push':
                # a separator, unless there is one
                add = self.content(I, st, a[1])
                if add and add[0] == 't': return None
                last = I.norm(st, v[3][-1]) if v[3] else None
                out = []
                for s2, y in ([(st, True)] if last is None else I.decide(st, I.binop(st, 'Eq', last, ('k', 47, P.ty_by_s['u8']), P.ty_by_s['u8']))):
                    I.write(s2, obj, path, ('a', v[1], 'vec', v[3] + (() if y else (('k', 47, P.ty_by_s['u8']),)) + tuple(add)))
                    out.append((s2, I.unit()))
                return out
            if self.cls(c.ats[1]) or P.types[c.ats[1]]['s'].startswith(('std::vec::Vec<u8', 'std::boxed::Box<', 'std::path', 'std::ffi')):
                add = self.content(I, st, a[1])
                if add and add[0] == 't':
                    add = (('s', I.mk('text', add[1]), P.ty_by_s['u8']),)
                add = tuple(I.read(st, x[1], x[2]) if x[0] == 'r' else x for x in add)
                I.write(st, obj, path, ('a', v[1], 'vec', v[3] + tuple(add)))
                if m == 'append':
                    o2, p2 = I.deref(st, a[1], P.types[c.ats[1]]['to']); I.write(st, o2, p2, ('a', None, 'vec', ()))
                return [(st, I.unit())]
        if m == 'starts_with' and len(a) == 2 and self.cls(c.ats[0]):
            x = self.content(I, st, a[0])
            y = a[1]
            u8 = P.ty_by_s['u8']
            pre = None
            if y[0] == 'k': pre = (y[1],)
            else:
                w = self.content(I, st, y)
                if w and w[0] != 't' and all(q[0] == 'k' for q in w): pre = tuple(q[1] for q in w)
            if pre is not None and (not x or x[0] != 't'):
                if len(x) < len(pre): return [(st, I.boolv(False))]
                cur = [st]; no = []
                for q, p in zip(x, pre):
                    nxt = []
                    for s in cur:
                        q2 = I.read(s, q[1], q[2]) if q[0] == 'r' else q
                        for s2, yes in I.decide(s, I.binop(s, 'Eq', q2, ('k', p, u8), u8)): (nxt if yes else no).append(s2)
                    cur = nxt
                return [(s, I.boolv(True)) for s in cur] + [(s, I.boolv(False)) for s in no]
        if m in ('is_absolute', 'has_root', 'is_relative') and len(a) == 1 and self.cls(c.ats[0]):
            x = self.content(I, st, a[0])
            if not x: return [(st, I.boolv(m == 'is_relative'))]
            if x[0] != 't':
                q = I.read(st, x[0][1], x[0][2]) if x[0][0] == 'r' else x[0]
                return [(s2, I.boolv(yes != (m == 'is_relative'))) for s2, yes in I.decide(st, I.binop(st, 'Eq', q, ('k', 47, P.ty_by_s['u8']), P.ty_by_s['u8']))]
        if m == 'len' and len(a) == 1 and self.cls(c.ats[0]):
            x = self.content(I, st, a[0])
            if not x or x[0] != 't': return [(st, ('k', len(x), I.usize_ti))]
        return None
    def run(self, kind, cmds, slots=None, outcomes=('zero', 'code', 'signal', 'none', 'err'), nglob=(0, 1, 2), nofail=(), hooks=(), **kw):
        self.outcomes = outcomes
        self.nglob = nglob
        self.nofail = set(nofail)
        P = self.P
        kw.setdefault('max_visits', 12); kw.setdefault('max_depth', 60)
        I = Interp(P, hooks=list(hooks) + [self.hook, ident_copy], opaque=lambda f: '::fmt' in f['n'] or '_DERIVE_' in f['n'], on_drop=self.dropped, **kw)
        I.fds = []; I.npipes = 0; I.nprocs = 0; I.nchild = 0
        I.slots = slots(Vals(P, I)) if slots else None
        obj = ('h', I.mk('blockptr'), self.block_ti)
        I.const_mem[obj] = self.block(I, kind, cmds)
        res = I.run(self.entry, [('s', I.mk('self'), self.entry['locals'][1]), ('r', obj, ()), ('s', I.mk('n', 'blockpos'), self.entry['locals'][3])])
        return I, res

from models import pointee, some, none

OSEV = {'fd', 'fail', 'open', 'write', 'read', 'new', 'arg', 'arg0', 'env', 'stdin', 'stdout', 'stderr', 'spawn', 'nospawn', 'execve', 'procop', 'wait', 'childop', 'thread', 'thread-end', 'join', 'chdir', 'getenv', 'glob', 'found', 'drop', 'args', 'current_dir', 'env_remove'}
def os_events(st): return [e for e in st.events() if e[0] in OSEV]
def txt(x):
    if isinstance(x, tuple) and x and x[0] != 't' and all(isinstance(b, int) for b in x): return bytes(x).decode('latin1')
    return str(x)
def story(I, st, limit=30):
    """what a path asked of the operating system, in words"""
    out = []
    for e in os_events(st):
        if e[0] in ('fd', 'drop', 'arg', 'found'): continue
        out.append(' '.join([e[0]] + [txt(x) if isinstance(x, tuple) else I.show(x, 2) if isinstance(x, int) and not isinstance(x, bool) and e[0] not in ('write', 'read') else str(x) for x in e[1:(2 if e[0] in ('thread', 'thread-end', 'join') else 3)]]))
    return '; '.join(out[:limit])

def decode(W, I, st, v, depth=14):
    """a language value: None (nil) | ('error', description, context) | ('dict', {name: value}) | ('array', [..]) | ('int', value) | ('other', term)"""
    v = I.norm(st, v)
    if v[0] != 'a' or v[1] != W.value_ti: return ('other', I.term(st, v, 8))
    k = W.P.types[W.value_ti]['v'][v[2]]['n']
    if k == 'Nil': return None
    if depth <= 0: return ('other', I.term(st, v, 8))
    if k == 'Int': return ('int', I.norm(st, v[3][0]))
    if k == 'Error':
        e = v[3][0]
        while e[0] == 'r': e = I.read(st, e[1], e[2])
        names = [f[0] for f in W.P.types[e[1]]['v'][0]['f']]
        ctx = e[3][names.index('context')]
        for _ in range(4):
            if ctx[0] == 'r': ctx = I.read(st, ctx[1], ctx[2])
            elif ctx[0] == 'a' and ctx[2] == 'cell': ctx = ctx[3][0]
        return ('error', e[3][names.index('description')], decode(W, I, st, ctx, depth - 1))
    c = content(I, st, v[3][0])
    if k == 'Array' and c[0] == 'a' and c[2] == 'vec': return ('array', [decode(W, I, st, x, depth - 1) for x in c[3]])
    if k == 'Dict' and c[0] == 'a' and c[2] == 'vec':
        d = {}
        for p in c[3]:
            key = p[3][0][1] if p[3][0][0] == 'k' else ('?', I.term(st, p[3][0]))
            if key in d: key = ('dup', key)
            d[key] = decode(W, I, st, p[3][1], depth - 1)
        return ('dict', d)
    return ('other', I.term(st, v, 10))
def leaves_of(d):
    """errors inside a result, outermost order: [(status, pos, raw)]"""
    if d is None: return []
    if d[0] == 'array': return [x for y in d[1] for x in leaves_of(y)]
    if d[0] == 'error':
        c = d[2]
        if c is not None and c[0] == 'array': return leaves_of(c)
        if c is not None and c[0] == 'dict': return [(c[1].get('status'), c[1].get('pos'), d)]
    return [('?', None, d)]

class Cmd:
    """what happened to one command on a path"""
    def __init__(s, name, proc): s.name = name; s.proc = proc; s.child = None; s.start = None; s.tried = False; s.waits = []; s.std = {}; s.args = []; s.env = []; s.arg0 = None
    def failed(s): return (s.tried and s.child is None) or any(w[0] != 'zero' for w in s.waits)

def happened(I, st):
    """{program name: Cmd}, [other things done], in order"""
    by = {}; cmds = {}; bychild = {}; other = []
    for i, e in enumerate(os_events(st)):
        k = e[0]
        if k == 'new':
            c = Cmd(txt(e[2]), e[1]); by[e[1]] = c
            if c.name in cmds: other.append(('twice', c.name))
            cmds[c.name] = c
        elif k in ('stdin', 'stdout', 'stderr'): by[e[1]].std[k] = (e[2], e[3])
        elif k == 'arg': by[e[1]].args.append(e[2])
        elif k == 'arg0': by[e[1]].arg0 = e[2]
        elif k == 'env': by[e[1]].env.append((e[2], e[3]))
        elif k == 'spawn':
            c = by[e[1]]
            if c.child is not None: other.append(('twice', c.name))
            c.child = e[2]; c.start = i; c.tried = True; bychild[e[2]] = c
        elif k == 'nospawn': by[e[1]].tried = True; by[e[1]].start = i
        elif k == 'wait': bychild[e[1]].waits.append((e[2], e[3], i))
        elif k in ('procop', 'childop', 'current_dir', 'env_remove'): other.append((k, e[1]))
    return cmds, other

def number(I, st, v, leaf):
    """value of an integer term under an assignment of its leaves, or None"""
    v = I.norm(st, v)
    if v[0] == 'k': return I.signed(v[1], v[2]) if v[2] is not None else v[1]
    if v[0] != 's': return None
    def go(t):
        if t in leaf: return leaf[t]
        if t in st.facts: return st.facts[t]
        k = I.T.t[t]
        if k[0] == 'k':
            ti = k[2][1] if len(k) > 2 and isinstance(k[2], tuple) else None
            return I.signed(k[1][1], ti) if ti is not None else k[1][1]
        if k[0] == 'as': return go(k[1])
        if k[0] in ('Add', 'Sub', 'Mul', 'BitAnd', 'BitOr', 'Shl'):
            a, b = go(k[1]), go(k[2])
            if a is None or b is None: return None
            return {'Add': a + b, 'Sub': a - b, 'Mul': a * b, 'BitAnd': a & b, 'BitOr': a | b, 'Shl': a << b if 0 <= b < 64 else None}[k[0]]
        if k[0] == 'call':
            m = k[1].rsplit('::', 1)[-1]
            if m in ('from', 'into') and len(k[2]) == 1: return go(k[2][0])
            if len(k[2]) == 2:
                a, b = go(k[2][0]), go(k[2][1])
                if a is None or b is None: return None
                if m.endswith('_add'): return a + b
                if m.endswith('_sub'): return a - b
                if m in ('max', 'min'): return max(a, b) if m == 'max' else min(a, b)
        return None
    return go(v[1])

def alive(I, st):
    """handles held by hush itself before each event: [(event, {handle: (what, holder process or None)})]"""
    held = {}; out = []
    for e in os_events(st):
        out.append((e, dict(held)))
        if e[0] == 'fd': held[e[1]] = (e[2], None)
        elif e[0] in ('stdin', 'stdout', 'stderr') and e[3] in held: held[e[3]] = (held[e[3]][0], e[1])
        elif e[0] == 'drop':
            held.pop(e[1], None)
            for h in [h for h, (d, p) in held.items() if p == e[1]]: held.pop(h)
    out.append((('end',), dict(held)))
    return out
