"""No front end error is silently dropped."""
from linear import *
from syn import *

TECHNIQUE = 'linear-use (ownership) analysis of the error values of the scanner, the parser and the semantic analyser, over every path of every function that handles one'
RULE = ('On no path of any function does an error of the scanner, the parser or the semantic analyser (or a value that may hold one) go out of scope, get consumed by foreign code or be flattened away; '
        'it must be returned, stored or handed to another function of the front end. Allowed are: an error offered to ok_or that was not needed; the failure of a trial parse, when the analysis shows that '
        'the function which failed consumed no token and put the current one back; and the entry point and std.import once they hold the finished list (what they do with it is decided by P01). '
        'The list of errors of an analysis only grows: nothing but adding to it happens to it, and it is the list handed out. Both lists of errors are printed for lists of up to four errors: every error up to the limit once and in order, and a notice when some are left out; on every path of the entry point with errors of a stage, the list of that stage is printed.')
ASSUMPTIONS = ['unwinding paths (a crash of the interpreter itself) are not followed', 'a loop is followed for two rounds (thorough: three)']
SHRINK = ('clear', 'truncate', 'pop', 'drain', 'retain', 'remove', 'swap_remove', 'split_off', 'take', 'dedup', 'dedup_by', 'dedup_by_key', 'retain_mut', 'set_len', 'extract_if', 'splice')

class Strict(Linear):
    def created(self, I, v): return False

def check(P, R, tier):
    import errprint; errprint.check(P, R, tier)
    names = ('syntax::lexer::error::Error', 'syntax::parser::error::Error', 'syntax::error::Error', 'semantic::error::Error')
    for n in names: need(ty(P, n), n)
    L = Strict(P, names); S = Syn(P)
    fns = [f for f in P.fns if f.get('local') and f['kind'] == 'item' and (f.get('trait') or '') not in ('std::fmt::Debug', 'std::fmt::Display') and any(L.mentions(l) for l in f['locals']) and f['file'].startswith(('src/syntax', 'src/semantic'))]
    hooks = [S.hook, ident_copy]
    def inline(g):
        """higher-order helpers are looked at together with the closure they are given"""
        return S.stepper(g) or any(P.types[g['locals'][i]]['k'] == 'closure' for i in range(1, g['args'] + 1)) and not S.opaque(g) and g['n'].startswith('syntax::')
    def sw(f, I, st, v, ti, fr, line, how):
        if not isinstance(how, str) and how.m in UNWRAPS: R.count('asserted_absent'); return
        if fr['n'].endswith(('::ok_or', '::unwrap_or', '::map_or')) and v[0] == 'a' and L.is_bad(ti) and fr['n'].endswith('ok_or'): return
        if trial(f, I, st, v, ti):
            R.count('trial_parses'); st.event(('attempt', line)); return
        w = 'discards' if isinstance(how, str) else 'hands to %s' % how.name
        R.bad('swallow:%s' % f['n'], '%s %s an error (a %s, at %s:%s); %s' % (f['n'], w, P.types[ti]['s'], f['file'] if fr.get('local') else fr['n'], line, fmt_path(I, st)))
    def made_here(I, st, v, ti):
        """every error in the value was made by this function, none received"""
        if ti is None or not L.mentions(ti): return True
        if L.is_bad(ti): return v[0] == 'a' or (v[0] == 's' and I.T.t[v[1]][0] == 'call')
        t = P.types[ti]
        if v[0] == 'a' and isinstance(v[2], int) and t.get('v'): return all(made_here(I, st, x, g[1]) for x, g in zip(v[3], t['v'][v[2]]['f']))
        if v[0] == 'a' and t['k'] == 'tuple': return all(made_here(I, st, x, g if isinstance(g, int) else g[1]) for x, g in zip(v[3], t['f']))
        return False
    def trial(f, I, st, v, ti):
        if v[0] == 's':
            evs = st.events()
            for i, e in enumerate(evs):
                if e[0] == 'call' and e[4] == v[1] and isinstance(e[7], dict) and e[7].get('id') is not None:
                    return S.trial(e[7]['id']) and all(x[2] for x in [y for y in evs[i:] if y[0] == 'consume'][:1])
        if not made_here(I, st, v, ti): return False
        a = I.parser_arg
        if a is None or any(e[0] == 'consume' for e in st.events()): return False
        before = [I.term(State(), x) for x in S.token_of(I, State(), a)]
        return S.same_tokens(I, st, before, [I.term(st, x) for x in S.token_of(I, st, a)])
    def prepare(I, f, args):
        pi = [i for i in range(f['args']) if P.types[f['locals'][i + 1]].get('to') in S.parsers]
        I.parser_arg = args[pi[0]] if pi else None
    def on_paths(f, I, res):
        """errors without a destructor: received errors must go somewhere"""
        for st in res:
            if st.end != 'return': continue
            evs = st.events()
            for i, e in enumerate(evs):
                if e[0] != 'call' or not isinstance(e[7], dict) or e[7].get('id') is None: continue
                rt = P.fns[e[7]['id']]['locals'][0]
                if not L.mentions(rt) or S.opaque(P.fns[e[7]['id']]) or not L.may_hold(I, st, ('s', e[4], rt), rt): continue
                R.count('errors_received')
                if contains(I, I.term(st, st.ret), e[4]): continue
                if any(contains(I, t, e[4]) for x in evs[i + 1:] if x[0] == 'call' for t in x[3]) or any(x[0] == 'push' and contains(I, I.term(st, x[3]), e[4]) for x in evs[i + 1:]): continue
                if any(contains(I, I.term(st, v), e[4]) for o, v in st.mem.items() if o[0] in ('h', 'n')): continue
                if S.trial(e[7]['id']) and all(x[2] for x in [y for y in evs[i:] if y[0] == 'consume'][:1]): continue
                R.bad('lost:%s' % f['n'], '%s gets an error from %s (line %s) and does nothing with it; %s' % (f['n'], e[1], e[6], fmt_path(I, st)))
    analyse(P, L, fns, sw, R, max_visits=2 if tier == 'quick' else 3, hooks=hooks, inline=inline, prepare=prepare, on_paths=on_paths)
    R.floor('functions_analysed', 150)
    R.floor('paths', 1500)
    flatten(P, R, names)
    lists(P, R, L)

def flatten(P, R, names):
    """results iterated over or flattened lose their error"""
    for f in P.fns:
        for l in f['locals']:
            t = P.types[l]
            s = (t.get('p') or t['s'].split('<')[0]) if t else ''
            if s.endswith(('result::IntoIter', 'result::Iter', 'adapters::Flatten', 'adapters::FlatMap', 'iter::Flatten', 'iter::FlatMap')):
                R.count('flattening_adapters')
                if flat_result(P, t, names): R.bad('flatten:%s' % f['n'], '%s iterates over results, dropping their errors: %s' % (f['n'], t['s'][:200]))

def flat_result(P, t, names):
    for a in t.get('a') or []:
        if not isinstance(a, int): continue
        x = P.types[a]
        if x and x['s'].startswith('std::result::Result<') and any(p in x['s'] for p in names): return True
        if x and flat_result(P, x, names): return True
    return False

def lists(P, R, L):
    """lists of errors only grow"""
    for f in P.fns:
        if not f.get('local') or f['kind'] != 'item': continue
        for b in f['bb']:
            t = b[1]
            if t[0] != 'call' or not isinstance(t[1], dict): continue
            m = t[1].get('m'); n = t[1].get('p') or ''
            if m in SHRINK and n.startswith(('std::vec::Vec', 'std::option::Option', 'std::mem::', 'std::collections')):
                tys = [x for x in call_types(P, f, t)]
                if any(list_of(P, L, x) for x in tys):
                    R.bad('shrink:%s:%s' % (f['n'], m), '%s removes errors from a list (%s, line %s)' % (f['n'], n, b[2]))
            if m == 'push' and n.startswith('std::vec::Vec') and any(list_of(P, L, x) for x in call_types(P, f, t)): R.count('reports')
    R.floor('reports', 3)

def call_types(P, f, t): return [x for x in t[6] if x is not None]

def list_of(P, L, ti):
    t = P.types[ti]
    while t and t['k'] == 'ref': t = P.types[t['to']]
    if not t: return False
    if t['s'].startswith('std::vec::Vec<') and any(isinstance(a, int) and L.is_bad(a) for a in t.get('a') or []): return True
    return t['s'] in ('semantic::error::Errors', 'syntax::error::Errors')
