"""Arguments, environment variables and redirections built from explicit tokens."""
from lib import *
from gram import *
import itertools
from lexer import ASCII

class Words:
    def __init__(self, P, tier):
        self.P = P
        self.G = G = Gram(P, 16)
        G.explicit = True
        G.limits = {}
        self.I = G.I
        self.I.hooks.insert(0, self.hook)
        self.kv = {v['n']: (i, v['f']) for i, v in enumerate(P.types[G.kind_ti]['v'])}
        self.boxparts = self.kv['Argument'][1][0][1]
        self.part_ti = need(ty(P, 'syntax::lexer::token::ArgPart'), 'ArgPart')
        self.pv = {v['n']: (i, v['f']) for i, v in enumerate(P.types[self.part_ti]['v'])}
        self.unit_ti = self.pv['Unquoted'][1][0][1]
        self.uv = {v['n']: (i, v['f']) for i, v in enumerate(P.types[self.unit_ti]['v'])}
        self.exp_ti = self.pv['Expansion'][1][0][1]
        self.ev = {v['n']: (i, v['f']) for i, v in enumerate(P.types[self.exp_ti]['v'])}
        self.u8 = need(ty(P, 'u8'), 'u8')
    # token parts: descriptions are ('lit', text) / ('$', name) / ...; a text is known byte by byte
    def byte(self, ch):
        return ('k', ord(ch), self.u8)
    def lit(self, st, text): return ('r', self.I.alloc(st, ('a', None, 'vec', tuple(self.byte(c) for c in text))), ())
    def unit(self, st, d):
        if d[0] == 'lit': return ('a', self.unit_ti, self.uv['Literal'][0], (self.lit(st, d[1]),))
        i, fs = self.uv['Dollar']
        return ('a', self.unit_ti, i, tuple(self.I.sym(f[1], 'dollar', d[1], f[0]) for f in fs))
    def part(self, st, d):
        if d[0] == 'sq': return ('a', self.part_ti, self.pv['SingleQuoted'][0], (self.lit(st, d[1]),))
        if d[0] == 'dq': return ('a', self.part_ti, self.pv['DoubleQuoted'][0], (('r', self.I.alloc(st, ('a', None, 'vec', tuple(self.unit(st, u) for u in d[1]))), ()),))
        if d[0] == 'env': return ('a', self.part_ti, self.pv['EnvAssign'][0], ())
        if d[0] == 'exp':
            i, fs = self.ev[d[1]]
            return ('a', self.part_ti, self.pv['Expansion'][0], (('a', self.exp_ti, i, tuple(self.I.sym(f[1], 'exp', d[1], ('n', q)) for q, f in enumerate(fs))),))
        return ('a', self.part_ti, self.pv['Unquoted'][0], (self.unit(st, d),))
    def token(self, st, n, kind):
        """kind: list of parts | name of a plain token | ('op', name, flag)"""
        G, I = self.G, self.I
        if isinstance(kind, list):
            kd = ('a', G.kind_ti, self.kv['Argument'][0], (('r', I.alloc(st, ('a', None, 'vec', tuple(self.part(st, d) for d in kind))), ()),))
        elif isinstance(kind, tuple):
            i, fs = self.kv['CmdOperator']
            ot = I.types[fs[0][1]]
            vi = [v['n'] for v in ot['v']].index(kind[1])
            kd = ('a', G.kind_ti, i, (('a', fs[0][1], vi, (I.boolv(kind[2]),) if ot['v'][vi]['f'] else ()),))
        else: kd = ('a', G.kind_ti, self.kv[kind][0], ())
        fs = I.types[G.S.token_ti]['v'][0]['f']
        tv = ('a', G.S.token_ti, 0, tuple(kd if i == G.i_kind else ('s', self.pos(n), f[1]) for i, f in enumerate(fs)))
        return ('a', G.opt, 1, (tv,))
    def hook(self, I, st, c):
        """operations of the standard library on known bytes"""
        a, n, m = c.args, c.name or '', c.m
        if m in ASCII and a:
            b = self.v(st, a[0])
            if b[0] == 'k': return [(st, I.boolv(ASCII[m](b[1])))]
        if m in ('extend', 'extend_from_slice') and len(a) == 2 and a[0][0] == 'r' and n.startswith(('std::vec::Vec', '<std::vec::Vec')):
            b = self.bytes(st, a[1]); v = I.read(st, a[0][1], a[0][2])
            if b is not None and v[0] == 'a' and v[2] == 'vec':
                I.write(st, a[0][1], a[0][2], ('a', v[1], 'vec', v[3] + tuple(('k', x, self.u8) for x in b)))
                return [(st, I.unit())]
        if n.endswith('str::from_utf8') and len(a) == 1:
            b = self.bytes(st, a[0])
            if b is not None: return [(st, ('a', c.dti, 0, (a[0],)))]
        if m in ('parse', 'from_str') and len(a) == 1 and c.dti is not None and I.types[c.dti]['s'].startswith('std::result::Result<') and c.info.get('id') is None:
            b = self.bytes(st, a[0]); t = I.types[I.types[c.dti]['v'][0]['f'][0][1]]
            if b is not None and t['k'] in ('int', 'uint'):
                s = bytes(b).decode()
                w = 64 if t['s'].endswith('size') else int(t['s'][1:]); lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if t['s'][0] == 'i' else (0, (1 << w) - 1)
                d = s[1:] if s[:1] == '+' or (s[:1] == '-' and lo < 0) else s
                if d.isdigit() and lo <= int(s) <= hi: return [(st, ('a', c.dti, 0, (('k', int(s), I.types[c.dti]['v'][0]['f'][0][1]),)))]
                return [(st, ('a', c.dti, 1, (I.sym(I.types[c.dti]['v'][1]['f'][0][1], 'no number', ('s', s)),)))]
        return None
    def bytes(self, st, x):
        x = self.v(st, x)
        if x[0] == 'b': return list(x[1])
        if x[0] == 'a' and x[2] in ('vec', 'array'):
            ys = [self.v(st, y) for y in x[3]]
            if all(y[0] == 'k' for y in ys): return [y[1] for y in ys]
        return None
    def pos(self, n): return self.I.mk('tokpos', ('n', n))
    # expected trees
    def argument(self, parts):
        out = []; buf = ''
        def flush():
            nonlocal buf
            if buf: out.append(('lit', buf)); buf = ''
        for d in parts:
            if d[0] in ('sq', 'lit'): buf += d[1]
            elif d[0] == 'env': buf += '='
            elif d[0] == 'dq':
                for u in d[1]:
                    if u[0] == 'lit': buf += u[1]
                    else: flush(); out.append(u)
            else: flush(); out.append(d)
        flush()
        return out
    def run(self, g, tokens):
        """[(state, result)] of the successful paths on the tokens followed by the end of the command, and how many paths fail"""
        G, I = self.G, self.I
        def setup(st):
            G.override = {n: self.token(st, n, k) for n, k in enumerate(tokens + ['CloseCommand', 'CloseCommand', 'CloseCommand'])}
            fs = []
            for i, (n, t) in enumerate(G.fields): fs.append(G.tok(0) if i == G.f_tok else I.sym(t, 'parser', n))
            p = I.alloc(st, ('a', G.pty, 0, tuple(fs)))
            st.user = {'p': p, 'i': 0, 'lim': 1000}
            st.mem[(st.frames[-1].uid, 1)] = ('r', p, ())
        ok, other = [], []
        for st in I.run(g, [('u',)] * g['args'], setup):
            if st.end == 'return' and not (G.cat(g)[1] and G.failed(st)):
                ok.append((st, st.ret[3][0] if G.cat(g)[1] else st.ret))
            else: other.append(st)
        return ok, other
    # reading a result back
    def v(self, st, x):
        for _ in range(6):
            if x[0] == 'r': x = self.I.read(st, x[1], x[2])
            elif x[0] == 'a' and x[1] is not None and isinstance(x[2], int) and self.I.is_ptr_wrapper(x[1]) and x[3]: x = x[3][0]
            else: break
        return x
    def text(self, st, x):
        x = self.v(st, x)
        if x[0] == 'b': return ''.join(map(chr, x[1]))
        if x[0] == 'bytes': return ''.join(map(chr, x[1]))
        if x[0] != 'a' or x[2] not in ('vec', 'array', 'slice'): return None
        if x[2] == 'slice': return self.text(st, x[3][0])
        out = ''
        for b in x[3]:
            b = self.v(st, b)
            if b[0] == 'k': out += chr(b[1])
            elif b[0] == 's' and self.I.T.t[b[1]][0] == 'byte': out += self.I.T.t[b[1]][1]
            else: return None
        return out
    def seq(self, st, x):
        x = self.v(st, x)
        if x[0] == 'a' and x[2] in ('vec', 'array'): return [self.v(st, y) for y in x[3]]
        if x[0] == 'a' and not x[3]: return []
        return None
    def rd_unit(self, st, x):
        x = self.v(st, x); n = vname(self.I, x)
        if n == 'Literal': return ('lit', self.text(st, x[3][0]))
        if n == 'Dollar':
            ks = [self.I.T.t[y[1]] if y[0] == 's' else None for y in x[3]]
            if all(k and k[0] == 'dollar' for k in ks) and len({k[1] for k in ks}) == 1 and [k[2] for k in ks] == [f[0] for f in self.I.types[x[1]]['v'][x[2]]['f']]: return ('$', ks[0][1])
        return ('?', self.I.show(self.I.term(st, x), 6))
    def rd_arg(self, st, x):
        """(parts, number of the token whose position it has)"""
        x = self.v(st, x)
        if x[0] != 'a': return ('?', self.I.show(x, 6)), None
        f = {a[0]: b for a, b in zip(self.I.types[x[1]]['v'][0]['f'], x[3])}
        ps = self.seq(st, f['parts'])
        if ps is None: return ('?', self.I.show(self.I.term(st, f['parts']), 6)), None
        out = []
        for p in ps:
            n = vname(self.I, p)
            if n == 'Unit': out.append(self.rd_unit(st, p[3][0]))
            elif n == 'Expansion':
                e = self.v(st, p[3][0])
                m = vname(self.I, e)
                ok = all(y[0] == 's' and self.I.T.t[y[1]] == ('exp', m, ('n', q)) for q, y in enumerate(self.v(st, z) for z in e[3])) if m != 'Collection' else True
                out.append(('exp', m) if ok else ('?', self.I.show(self.I.term(st, e), 6)))
            else: out.append(('?', n))
        k = self.I.T.t[f['pos'][1]] if f['pos'][0] == 's' else None
        return out, k[1][1] if k and k[0] == 'tokpos' else None

def say(tokens):
    def p(d):
        if d[0] in ('lit', 'sq'): return d[1] if d[0] == 'lit' else "'%s'" % d[1]
        if d[0] == 'dq': return '"%s"' % ''.join(map(p, d[1]))
        if d[0] == '$': return '$' + d[1]
        if d[0] == 'env': return '='
        return '<%s>' % d[1]
    def t(k):
        if isinstance(k, list): return ''.join(map(p, k)) or '(empty)'
        if isinstance(k, tuple): return {('Output', False): '>', ('Output', True): '>>', ('Input', False): '<', ('Input', True): '<<'}.get(k[1:], '?')
        return k
    return ' '.join(map(t, tokens))

def check(P, R, tier, g):
    W = Words(P, tier)
    ent = {}
    for k, ps in g.paths.items():
        fid = g.G.order[k][0]
        if g.G.order[k][1] == ['parser'] and ps: ent.setdefault(ps[0].cat, []).append(P.fns[fid])
    basic = [f for f in ent.get('BasicCommand', []) if any(e[0] == 'nt' and e[3] == 'BasicCommand' and g.G.order[e[2]][0] == f['id'] for ps in g.paths.values() for T in ps for e in T.E if T.cat != 'BasicCommand')]
    if not basic: R.bad('anchor:BasicCommand', 'the function that parses a basic command was not found'); return
    alphabet = [('lit', 'az'), ('$', 'x'), ('sq', 'bq'), ('sq', ''), ('dq', ()), ('dq', (('lit', 'cw'), ('$', 'y'), ('lit', 'd'))), ('exp', 'Star'), ('env',)]
    lists = [[]] + [[a] for a in alphabet] + [[('exp', n)] for n in W.ev if n != 'Collection'] + [list(x) for x in itertools.product(alphabet, repeat=2)]
    if tier != 'quick': lists += [list(x) for x in itertools.product(alphabet, repeat=3)]
    else: lists += [[('lit', 'az'), ('env',), x] for x in alphabet] + [[('lit', 'az'), x, ('sq', 'bq')] for x in alphabet]
    prog = [('lit', 'p')]
    for b in basic:
        for l in lists:
            env = len(l) >= 2 and l[0][0] in ('lit', '$') and l[1] == ('env',)
            one(W, R, b, [prog, l], dict(env=[], program=prog, arguments=[(1, l)], redirections=[], abort=True), 0)
            if env: one(W, R, b, [l, prog], dict(env=[(l[0], (0, l[2:]))], program=prog, arguments=[], redirections=[], abort=True), 1)
            else: one(W, R, b, [l, prog], dict(env=[], program=l, arguments=[(1, prog)], redirections=[], abort=True), 0)
        redirections(W, R, b, prog)
    R.floor('arguments', 100); R.floor('redirections', 20)

def redirections(W, R, b, prog):
    num, word, quoted, var = [('lit', '2')], [('lit', 'f')], [('sq', '2')], [('$', 'x')]
    big = [('lit', '300')]
    mixed, joined, dquoted = [('lit', '2'), ('$', 'x')], [('lit', '2'), ('sq', 'b')], [('dq', (('lit', '2'),))]
    out, app, inp, lin = ('op', 'Output', False), ('op', 'Output', True), ('op', 'Input', False), ('op', 'Input', True)
    T = ('op', 'Try', False)
    D = dict(env=[], program=prog, arguments=[], redirections=[], abort=True)
    def case(tokens, **kw): one(W, R, b, [prog] + tokens, dict(D, **kw), 0, 'redirections')
    for w, tg in ((num, ('Fd', 2)), (word, ('Overwrite', 2, word)), (quoted, ('Overwrite', 2, quoted)), (var, ('Overwrite', 2, var)), (big, ('Overwrite', 2, big)),
                  (mixed, ('Overwrite', 2, mixed)), (joined, ('Overwrite', 2, joined)), (dquoted, ('Overwrite', 2, dquoted))):
        case([out, w], redirections=[('Output', 'stdout', tg)])
        tg3 = tg if tg[0] == 'Fd' else (tg[0], 3, tg[2])
        case([num, out, w], redirections=[('Output', 2, tg3)])
        case([quoted, out, w], arguments=[(1, quoted)], redirections=[('Output', 'stdout', tg3)])
    for w in (mixed, joined, dquoted): case([w, out, word], arguments=[(1, w)], redirections=[('Output', 'stdout', ('Overwrite', 3, word))])
    for w in (num, word, quoted, var):
        case([app, w], redirections=[('Output', 'stdout', ('Append', 2, w))])
        case([num, app, w], redirections=[('Output', 2, ('Append', 3, w))])
        case([inp, w], redirections=[('Input', False, 2, w)])
        case([lin, w], redirections=[('Input', True, 2, w)])
    e1, e2 = [('lit', 'a'), ('env',), ('lit', 'b')], [('$', 'x'), ('env',)]
    one(W, R, b, [e1, e2, prog], dict(D, env=[(e1[0], (0, e1[2:])), (e2[0], (1, []))]), 2)
    one(W, R, b, [e1, e2, prog, e1, word], dict(D, env=[(e1[0], (0, e1[2:])), (e2[0], (1, []))], arguments=[(3, e1), (4, word)]), 2)
    case([num, num], arguments=[(1, num), (2, num)])
    case([word, out, word], arguments=[(1, word)], redirections=[('Output', 'stdout', ('Overwrite', 3, word))])
    case([num, out, word, inp, var], redirections=[('Output', 2, ('Overwrite', 3, word)), ('Input', False, 5, var)])
    case([inp, var, out, num], redirections=[('Input', False, 2, var), ('Output', 'stdout', ('Fd', 2))])
    case([T], abort=False)
    case([word, T], arguments=[(1, word)], abort=False)
    case([out, word, T], redirections=[('Output', 'stdout', ('Overwrite', 2, word))], abort=False)

def one(W, R, b, tokens, want, progpos, name='arguments'):
    R.count(name)
    I = W.I
    txt = say(tokens)
    key = 'words:' + txt
    try: ok, other = W.run(b, tokens)
    except RuntimeError as e:
        R.bad(key, 'the parsing of { %s } could not be followed (%s)' % (txt, e)); return
    if not ok: R.bad(key, '{ %s } is not accepted' % txt); return
    for st in other:
        if st.end not in ('reported', 'return'): R.bad(key, 'the parsing of { %s } could not be followed to its end (%s)' % (txt, st.end)); return
        R.bad(key, '{ %s } can be rejected; %s' % (txt, fmt_path(I, st))); return
    for st, x in ok:
        got = read(W, st, x)
        exp = dict(env=[(k, (W.argument(a[1]), a[0])) for k, a in want['env']], program=(W.argument(want['program']), progpos), arguments=[(W.argument(a), n) for n, a in want['arguments']],
                   redirections=[rdir(W, r) for r in want['redirections']], abort=want['abort'], pos=progpos)
        for f in exp:
            if got.get(f) != exp[f]:
                R.bad(key, '{ %s }: the %s of the command: %s instead of %s' % (txt, f, got.get(f), exp[f])); return
        if st.user['i'] != len(tokens): R.bad(key, '{ %s }: %d tokens are read, not %d' % (txt, st.user['i'], len(tokens)))

def rdir(W, r):
    if r[0] == 'Input': return ('Input', r[1], (W.argument(r[3]), r[2]))
    t = r[2]
    return ('Output', r[1], t if t[0] == 'Fd' else (t[0], (W.argument(t[2]), t[1])))

def read(W, st, x):
    I = W.I
    x = W.v(st, x)
    f = {a[0]: y for a, y in zip(I.types[x[1]]['v'][0]['f'], x[3])} if x[0] == 'a' else {}
    if not f: return {}
    out = {}
    env = W.seq(st, f['env'])
    out['env'] = None if env is None else [(W.rd_unit(st, W.v(st, e)[3][0]), W.rd_arg(st, W.v(st, e)[3][1])) for e in env]
    out['program'] = W.rd_arg(st, f['program'])
    a = W.seq(st, f['arguments'])
    out['arguments'] = None if a is None else [W.rd_arg(st, y) for y in a]
    rs = W.seq(st, f['redirections'])
    out['redirections'] = None if rs is None else [rd_redir(W, st, y) for y in rs]
    out['abort'] = boolval(I, st, W.v(st, f['abort_on_error']))
    k = I.T.t[f['pos'][1]] if f['pos'][0] == 's' else None
    out['pos'] = k[1][1] if k and k[0] == 'tokpos' else None
    return out

def num(W, st, v):
    v = W.v(st, v)
    if v[0] == 'k': return v[1]
    t = W.I.term(st, v)
    k = W.I.T.t[t]
    if k[0] == 'call' and k[1].endswith('as_raw_fd'):
        a = W.I.T.t[strip_ref(W.I, k[2][0])]
        if a[0] == 'call' and a[1] == 'std::io::stdout': return 'stdout'
    return W.I.show(t, 8)

def rd_redir(W, st, y):
    I = W.I
    n = vname(I, y)
    f = {a[0]: z for a, z in zip(I.types[y[1]]['v'][y[2]]['f'], y[3])}
    if n == 'Input': return ('Input', boolval(I, st, W.v(st, f['literal'])), W.rd_arg(st, f['source']))
    t = W.v(st, f['target'])
    m = vname(I, t)
    return (n, num(W, st, f['source']), ('Fd', num(W, st, t[3][0])) if m == 'Fd' else (m, W.rd_arg(st, t[3][0])))
