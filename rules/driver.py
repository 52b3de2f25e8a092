"""The stages from a source to its evaluation: recognised by their types, followed along every path of the entry point and of std.import."""
from natspec import *

class Stages:
    def __init__(self, P):
        self.P = P
        T = lambda i: tnorm(P.types[i]['s'])
        item = [f for f in P.fns if f.get('local') and f['kind'] == 'item' and f.get('dk') != 'Closure']
        def by(pred, what): 
            r = {f['id'] for f in item if pred(f, T(f['locals'][0]))}
            need(r, what); return r
        self.ids = {}
        # std's combinators are inlined, so only the functions that produce the value from something else count
        self.ids['load'] = by(lambda f, r: r.startswith('std::result::Result<syntax::source::Source,'), 'loading of a source')
        self.ids['syntax'] = by(lambda f, r: r == 'syntax::Analysis' and f['args'] >= 1 and 'Source' in T(f['locals'][1]), 'syntax analysis')
        self.ids['semantic'] = by(lambda f, r: r.startswith('std::result::Result<semantic::program::Program,') and f['args'] >= 1 and any('ast::Ast' in T(f['locals'][i + 1]) for i in range(f['args'])), 'semantic analysis')
        self.ids['eval'] = by(lambda f, r: r == 'std::result::Result<runtime::value::Value, runtime::panic::Panic>' and f['args'] == 2 and T(f['locals'][1]) == '&mut runtime::Runtime' and T(f['locals'][2]).endswith('semantic::program::Program'), 'evaluation of a program')
        self.ids['args'] = by(lambda f, r: r.startswith('std::result::Result<args::Command,'), 'parsing of the command line')
        # outermost ones only: drop wrappers called by another function of the same stage
        self.kind = {i: k for k, s in self.ids.items() for i in s}
        an = need(ty(P, 'syntax::Analysis'), 'Analysis')
        self.err_ix = [i for i, f in enumerate(P.types[an]['v'][0]['f']) if 'syntax::error::Error' in P.types[f[1]]['s']]
        self.ast_ix = [i for i, f in enumerate(P.types[an]['v'][0]['f']) if 'ast::Ast' in P.types[f[1]]['s']]
        need(self.err_ix, 'syntax errors of an analysis'); need(self.ast_ix, 'AST of an analysis')
    def hook(self, I, st, c):
        k = self.kind.get(c.info.get('id'))
        if k is None: return None
        ts = tuple(I.term(st, a, 12) for a in c.args)
        st.ctr += 1
        t = I.mk('stage', k, ('n', st.ctr))
        st.event(('stage', k, t, ts, c.line, st.frames[-1].fn['n']))
        for i, a in enumerate(c.args):
            ti = c.ats[i]
            if a[0] == 'r' and ti is not None and I.types[ti]['k'] == 'ref' and I.types[ti].get('mut'):
                I.havoc(st, a, I.types[ti]['to'], I.mk('mut', t, ('n', i)))
        return [(st, ('s', t, c.dti))]
    def opaque(self, f):
        n = f['n']
        if n in ('syntax::Analysis::is_ok',) or n.endswith(('::is_empty', '::len', '::is_ok', '::is_err')): return False
        return '::fmt' in n or n.startswith(('syntax::lexer', 'syntax::parser', 'syntax::ast', 'semantic::', 'term::', 'fmt::'))

def mentions(I, t, x, d=16, memo=None):
    memo = {} if memo is None else memo
    if t == x: return True
    if d <= 0: return False
    if t in memo: return memo[t]
    memo[t] = False
    r = False
    for p in I.T.t[t][1:]:
        if isinstance(p, bool): continue
        if isinstance(p, int): r = mentions(I, p, x, d - 1, memo)
        elif isinstance(p, tuple) and not (p and p[0] == 'n'):
            r = any(isinstance(q, int) and not isinstance(q, bool) and mentions(I, q, x, d - 1, memo) for q in p)
        if r: break
    memo[t] = r
    return r

def disc_of(I, st, t):
    for k, v in st.facts.items():
        x = I.T.t[k]
        if x[0] == 'disc' and x[1] == t: return v
    return None

def empty_of(I, st, t):
    """is the collection within term t known to be empty (True), known not to be (False), or neither (None)?"""
    for k, v in st.facts.items():
        x = I.T.t[k]
        if x[0] == 'len' and mentions(I, x[1], t): return v == 0
        if x[0] == 'Eq' and I.T.t[x[2]][0] == 'k' and I.T.t[x[2]][1][1] == 0 and I.T.t[x[1]][0] == 'len' and mentions(I, x[1], t): return v == 1
        if x[0] == 'call' and x[1].endswith('is_empty') and mentions(I, k, t): return v == 1
    for k, (lo, hi) in st.iv.items():
        x = I.T.t[k]
        if x[0] == 'len' and mentions(I, x[1], t):
            if hi == 0: return True
            if lo > 0: return False
    return None

def records(P, S, I, st):
    """facts about the stages of a path"""
    r = {'stages': [], 'load': None, 'syntax': None, 'semantic': None, 'eval': None, 'args': None}
    for e in st.events():
        if e[0] != 'stage': continue
        k, t = e[1], e[2]
        r['stages'].append((k, t, e[3], e))
        if k == 'syntax': r['syntax'] = empty_of(I, st, I.mk('f', t, ('n', S.err_ix[0])))
        else: r[k] = {0: 'ok', 1: 'err', None: 'unknown'}[disc_of(I, st, t)]
    return r

def linked(P, S, I, st, r, bad):
    """each stage works on the outcome of the one before"""
    last = {}
    for k, t, ts, e in r['stages']:
        if k == 'syntax' and 'load' in last and not any(mentions(I, x, last['load']) for x in ts): bad('link:syntax', 'the source analysed is not the one loaded')
        if k == 'semantic':
            if 'syntax' not in last: bad('link:semantic', 'semantic analysis without syntax analysis')
            elif not any(mentions(I, x, I.mk('f', last['syntax'], ('n', S.ast_ix[0]))) for x in ts): bad('link:semantic', 'the AST analysed is not the one parsed')
        if k == 'eval':
            if 'semantic' not in last: bad('link:eval', 'evaluation without semantic analysis')
            elif not any(mentions(I, x, last['semantic']) for x in ts): bad('link:eval', 'the program evaluated is not the one analysed')
        if k in last and k != 'load': bad('link:again:' + k, 'stage %s happens twice' % k)
        last[k] = t
    return last

def explore_main(P, S, max_visits=2):
    m = [f for f in P.fns if f.get('local') and f['n'] == 'main' and f['kind'] == 'item']
    need(m, 'main')
    I = Interp(P, hooks=[S.hook], opaque=lambda f: S.opaque(f) or f['n'].startswith('runtime::') or f['n'].startswith('<runtime'), max_visits=max_visits)
    res = [s for s in I.run(m[0], []) if s.end not in ('infeasible', 'cut')]
    return I, res, m[0]

def explore_import(P, S, E):
    fn = need(natives(P).get('std.import'), 'std.import')
    I, res = explore_native(E, fn, lambda V: [V.sym('String', 'a0')], hooks=[S.hook], max_visits=4, look=lambda f: f['n'].startswith('syntax::') and not S.opaque(f))
    return I, res, fn

def exit_code(I, st):
    """constant the process exits with on a path: int, or a term, or None when it does not exit"""
    for e in reversed(st.events()):
        if e[0] == 'noreturn':
            if e[1] != 'std::process::exit': return ('crash', e[1])
            k = I.T.t[e[2][0]]
            return ('exit', k[1][1]) if k[0] == 'k' else ('exit', None)
    return None

def flag(P, I, st, name):
    """value of a command line flag on the path"""
    ct = need(ty(P, 'args::Command'), 'Command'); at = need(ty(P, 'args::Args'), 'Args')
    run = [i for i, v in enumerate(P.types[ct]['v']) if v['n'] == 'Run']
    ix = [i for i, f in enumerate(P.types[at]['v'][0]['f']) if f[0] == name]
    need(run, 'Run'); need(ix, name)
    for e in st.events():
        if e[0] == 'stage' and e[1] == 'args':
            cmd = I.mk('f', I.mk('d', e[2], ('n', 0)), ('n', 0))
            a = I.mk('f', I.mk('d', cmd, ('n', run[0])), ('n', 0))
            return st.facts.get(I.mk('f', a, ('n', ix[0])))
    return None

def command(P, I, st):
    """variant of the command on the path"""
    ct = need(ty(P, 'args::Command'), 'Command')
    for e in st.events():
        if e[0] == 'stage' and e[1] == 'args':
            d = disc_of(I, st, e[2])
            if d == 1: return 'error'
            cmd = I.mk('f', I.mk('d', e[2], ('n', 0)), ('n', 0))
            v = disc_of(I, st, cmd)
            if v is None: 
                ns = [x['n'] for x in P.types[ct]['v']]
                no = st.nots.get(I.mk('disc', cmd, ('n', ct)), ())
                left = [n for i, n in enumerate(ns) if int(P.types[ct]['v'][i]['d']) not in no]
                return '|'.join(left)
            return [x['n'] for x in P.types[ct]['v'] if int(x['d']) == v][0]
    return None
