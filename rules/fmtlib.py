"""Formatted output, followed into the implementations of the arguments printed."""
import re
from lib import *

NEW = re.compile(r'(?:core|std)::fmt::rt::Argument::<.*?>::new_(\w+)$')
MAKE = re.compile(r'std::fmt::Arguments::<.*?>::(new|from_str|new_const|new_v1|from_str_nonconst)$')
WRITE = re.compile(r'(?:std::fmt::Formatter::<.*?>|std::fmt::Write|std::io::Write|<.* as std::(?:fmt|io)::Write>)::(write_fmt|write_str|write_char|pad)$')
FMT = re.compile(r'(?:<(.*) as std::fmt::(\w+)>|core::fmt::[\w:]+::<impl std::fmt::(\w+) for (.*?)>|std::fmt::(Display|Debug))::fmt$')

def bytes_of(I, st, v):
    for _ in range(4):
        if v[0] == 'r': v = I.read(st, v[1], v[2])
    if v[0] == 'b': return bytes(v[1])
    if v[0] == 'a' and all(x[0] == 'k' for x in v[3]): return bytes(x[1] for x in v[3])
    return None

def template(b):
    """[bytes | (argument index, options)] of a format string"""
    out = []; i = n = 0
    while i < len(b):
        x = b[i]; i += 1
        if x == 0: break
        if x < 0x80: out.append(b[i:i + x]); i += x
        elif x == 0x80:
            k = int.from_bytes(b[i:i + 2], 'little'); i += 2
            out.append(b[i:i + k]); i += k
        else:
            o = {}
            for bit, name, w in ((1, 'flags', 4), (2, 'width', 2), (4, 'precision', 2), (8, 'arg', 2)):
                if x & bit: o[name] = int.from_bytes(b[i:i + w], 'little'); i += w
            if x & 48: o['indirect'] = True
            n = o.pop('arg', n)
            out.append((n, o)); n += 1
    return out

class Printer:
    """as a hook of an interpreter: pieces printed become events ('out', bytes) and ('out', type, trait, options, value)"""
    def __init__(self, P, leaf=None):
        self.P = P; self.leaf = leaf or (lambda ti, I, st: False); self.args = []
    def peel(self, ti):
        while ti is not None and self.P.types[ti]['k'] == 'ref': ti = self.P.types[ti]['to']
        return ti
    def impl(self, info, ti, trait):
        """the local implementation which prints a type"""
        for u in info.get('uses', ()):
            if u[0] == 'fn' and u[2] is not None:
                f = self.P.fns[u[2]]
                if f.get('m') == 'fmt' and (f.get('trait') or '').rsplit('::', 1)[-1].lower().startswith(trait.lower()[:5]) and self.peel(f['locals'][1]) == ti: return f
        return None
    def inner(self, I, st, v, ti):
        """what pointers lead to"""
        while ti is not None and self.P.types[ti]['k'] == 'ref':
            to = self.P.types[ti]['to']
            if v[0] == 'r': v = I.read(st, v[1], v[2])
            elif v[0] == 's': v = ('s', I.mk('*', v[1]), to)
            else: break
            ti = to
        return v
    def types_local(self, ti): return ti is not None and bool(self.P.types[ti].get('v') or self.P.types[ti].get('local'))
    def formatted(self, I, st, v):
        """the text made by format!"""
        for _ in range(5):
            if v[0] == 'r': v = I.read(st, v[1], v[2])
        return v if v[0] == 'a' and v[2] == 'fmtd' else None
    def pieces(self, I, st, v):
        """what the arguments of a format call print, or None"""
        if v[0] == 'a' and v[2] == 'fmtarg': return [(None, (v, None, 'arg', {}))]
        if v[0] == 'a' and v[2] == 'fmtstr':
            b = bytes_of(I, st, v[3][0])
            return None if b is None else [(b, None)]
        if v[0] == 'a' and v[2] == 'fmtargs':
            b = bytes_of(I, st, v[3][0])
            av = v[3][1]
            while av[0] == 'r': av = I.read(st, av[1], av[2])
            if b is None or av[0] != 'a': return None
            return [(x, None) if isinstance(x, bytes) else (None, (av[3][x[0]], None, 'arg', x[1])) for x in template(b)]
        return None
    def hook(self, I, st, c):
        n = c.info.get('p') or c.info.get('decl') or ''
        m = NEW.match(n)
        if m:
            ti = self.peel(c.ats[0])
            self.args.append((m.group(1), ti, self.impl(c.info, ti, m.group(1)), c.ats[0]))
            return [(st, ('a', c.dti, 'fmtarg', (c.args[0], ('k', len(self.args) - 1, I.usize_ti))))]
        m = MAKE.match(n)
        if m:
            if m.group(1) == 'new' and len(c.args) == 2: return [(st, ('a', c.dti, 'fmtargs', tuple(c.args)))]
            return [(st, ('a', c.dti, 'fmtstr', (c.args[0],)))]
        if c.info.get('krate') == 'hush' and c.m == 'fmt' and c.info.get('id') is not None and len(c.args) >= 2:
            # a local implementation called directly
            if self.leaf(self.peel(c.ats[0]), I, st): return self.emit(I, st, c, [(None, (c.args[0], c.ats[0], 'display', {}))])
            return None
        if re.match(r'(?:std|alloc)::fmt::format(?:::format_inner)?$', n) and len(c.args) == 1 and I.types[c.dti]['s'] == 'std::string::String':
            return [(st, ('a', c.dti, 'fmtd', (c.args[0],)))]
        if c.m == 'to_string' and len(c.args) == 1 and c.ats[0] is not None and I.types[c.dti]['s'] == 'std::string::String' and self.types_local(self.peel(c.ats[0])):
            ti = self.peel(c.ats[0])
            self.args.append(('display', ti, self.impl(c.info, ti, 'display'), c.ats[0]))
            if self.args[-1][2] is not None or self.leaf(ti, I, st):
                return [(st, ('a', c.dti, 'fmtd', (('a', None, 'fmtarg', (c.args[0], ('k', len(self.args) - 1, I.usize_ti))),)))]
        if c.m in ('deref', 'as_str', 'as_ref', 'borrow') and len(c.args) == 1 and self.formatted(I, st, c.args[0]): return [(st, c.args[0])]
        if c.m in ('clone', 'to_owned', 'to_string', 'into_boxed_str', 'into', 'from') and len(c.args) == 1 and self.formatted(I, st, c.args[0]): return [(st, self.formatted(I, st, c.args[0]))]
        m = WRITE.match(n) or WRITE.match(c.info.get('decl') or '')
        if m and len(c.args) == 2:
            k = m.group(1); v = c.args[1]
            if k in ('write_str', 'pad'):
                b = bytes_of(I, st, v)
                return self.emit(I, st, c, [(b, None)] if b is not None else [(None, (v, c.ats[1], 'display', {}))])
            if k == 'write_char':
                if v[0] == 'k': return self.emit(I, st, c, [(chr(v[1]).encode(), None)])
                return self.emit(I, st, c, [(None, (v, c.ats[1], 'display', {}))])
            if v[0] == 'a' and v[2] == 'fmtstr':
                b = bytes_of(I, st, v[3][0])
                if b is None: return self.emit(I, st, c, [(None, (v[3][0], None, 'display', {}))])
                return self.emit(I, st, c, [(b, None)])
            if v[0] == 'a' and v[2] == 'fmtargs':
                b = bytes_of(I, st, v[3][0])
                av = v[3][1]
                while av[0] == 'r': av = I.read(st, av[1], av[2])
                if b is None or av[0] != 'a': return None
                ps = []
                for x in template(b):
                    if isinstance(x, bytes): ps.append((x, None))
                    else: ps.append((None, (av[3][x[0]], None, 'arg', x[1])))
                return self.emit(I, st, c, ps)
            return None
        if c.info.get('krate') != 'hush' and c.m == 'fmt' and len(c.args) == 2 and (c.info.get('trait') or '').startswith('std::fmt::'):
            tr = c.info['trait'].rsplit('::', 1)[-1].lower()
            f = self.impl(c.info, self.peel(c.ats[0]), tr)
            return self.emit(I, st, c, [(None, (c.args[0], c.ats[0], tr, {}, f))])
        return None
    def emit(self, I, st, c, ps):
        ok = lambda: ('a', c.dti, 0, (I.unit(),))
        def done(s, v):
            if c.k is not None: return c.k(I, s, v)
            I.ret_to(s, c.dest, c.target, v)
            return None
        def go(s, i, ps):
            ps = list(ps)
            while i < len(ps):
                b, a = ps[i]; i += 1
                if b is not None: s.event(('out', b)); continue
                v, ti, tr, o = a[:4]; f = a[4] if len(a) > 4 else None
                if tr == 'arg':
                    if v[0] != 'a' or v[2] != 'fmtarg': s.event(('out', None, 'unknown', o, v)); continue
                    tr, base, f, ti = self.args[v[3][1][1]]
                    v = v[3][0]
                base = self.peel(ti)
                d = self.formatted(I, s, v)
                if d is not None and tr == 'display' and not o:
                    q = self.pieces(I, s, d[3][0])
                    if q is not None: ps[i:i] = q; continue
                v = self.inner(I, s, v, ti)
                if base is None or f is None or self.leaf(base, I, s) or any(fr.fn['id'] == f['id'] for fr in s.frames):
                    if base is not None and self.P.types[base]['s'] == 'str' and tr == 'display':
                        b = bytes_of(I, s, v)
                        if b is not None: s.event(('out', b)); continue
                    s.event(('out', base, tr, o, v)); continue
                obj = I.alloc(s, v)
                info = {'decl': f['n'], 'p': f['n'], 'm': f.get('m'), 'a': [], 'id': f['id'], 'trait': f.get('trait'), 'krate': 'hush'}
                fv = c.args[1] if c.m == 'fmt' else c.args[0]
                def cont(I2, s2, r, i=i, ps=ps):
                    if r[0] == 'a' and r[2] == 1: return done(s2, r)
                    return go(s2, i, ps)
                st_ = I.enter(s, f, [('r', obj, ()), fv], None, None, cont)
                return st_
            return done(s, ok())
        r = go(st, 0, ps)
        return 'entered' if r is None else ('states', r)

def printed(P, st):
    """what a path printed, colours left out: [bytes | (type, trait, options, value)]"""
    out = []
    for e in st.events():
        if e[0] != 'out': continue
        if len(e) == 2:
            if out and isinstance(out[-1], bytes): out[-1] += e[1]
            elif e[1]: out.append(e[1])
        else:
            s = P.types[e[1]]['s'] if e[1] is not None else '?'
            if s.startswith('termion::'): continue
            out.append((s, e[2], e[3], e[4]))
    return out
