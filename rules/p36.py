"""The command line decides which script runs, and what std.args holds."""
from driver import *
from values import *
import maps

TECHNIQUE = 'abstract interpretation of compiler MIR along every path of the parsing of the command line, of the entry point and of the creation of the runtime, with up to three words whose text is unknown'
RULE = ('The parsing of the command line is followed for zero to five words (six in the thorough tier) of unknown text, with either outcome of every question about a word: on each path the script and the words kept as its arguments are those the first word calls for, each passed only through conversions which '
        'keep its bytes; each flag of Args is the presence of the option with its own long name; the words are declared as a repeated argument which takes words with a leading hyphen and ends the parsing of flags. On every path of the entry point the words are those of the process, '
        'the source loaded is the named file or standard input, and the runtime is created with the arguments as they are. Creating the runtime with up to five texts makes an array of the same texts in order, and std.args gives that array. Loading a source gives everything read from the file of its path, and a failure to open or read it is handed on.')
ASSUMPTIONS = ['the command line parser hands on the words after the flags in their order and tells which flags were given']

TEXTY = ('std::ffi::OsStr', 'std::ffi::OsString', 'std::path::Path', 'std::path::PathBuf', 'std::boxed::Box<[u8]>', 'std::vec::Vec<u8>', '[u8]', 'std::boxed::Box<std::ffi::OsStr>', 'std::boxed::Box<std::path::Path>')
SAME = ('as_bytes', 'from_bytes', 'new', 'to_owned', 'into', 'as_ref', 'to_path_buf', 'from', 'as_os_str', 'into_vec', 'from_vec', 'to_vec', 'into_boxed_slice', 'into_boxed_path', 'into_boxed_os_str', 'into_os_string', 'to_os_string', 'clone', 'borrow', 'deref', 'as_path', 'as_encoded_bytes', 'as_slice', 'into_path_buf', 'cloned', 'into_owned')
FLAGS = (('check', 'check'), ('lex', 'print_lexemes'), ('ast', 'print_ast'), ('program', 'print_program'))

def base(P, ti):
    while ti is not None and P.types[ti]['k'] == 'ref': ti = P.types[ti]['to']
    return P.types[ti]['s'].replace(', std::alloc::Global', '').replace('&', '') if ti is not None else ''

def word(I, st, v, n=12):
    """which word of the command line a value is the text of"""
    while n:
        n -= 1
        if v[0] == 'r':
            if v[1][0] == 'n' and str(v[1][1]).startswith('w') and not v[2]: return v[1][1]
            v = I.read(st, v[1], v[2]); continue
        if v[0] == 's':
            t = I.T.t[v[1]]
            if t[0] == 'text': return t[1]
        return None
    return None

def words_hook(nwords):
    def hook(I, st, c):
        P = I.P
        n = c.info.get('p') or c.info.get('decl') or ''
        if n.startswith('clap::') and c.m == 'get_matches_from_safe':
            e = ('a', c.dti, 1, (('s', I.mk('usage'), I.types[c.dti]['v'][1]['f'][0][1]),))
            return [(st, ('a', c.dti, 0, (('s', I.mk('matches'), I.types[c.dti]['v'][0]['f'][0][1]),)))]
        if n.startswith('clap::'):
            if c.m in ('values_of_os', 'is_present', 'values_of', 'value_of', 'value_of_os', 'values_of_lossy', 'value_of_lossy', 'occurrences_of'):
                nm = name_of(I, st, c.args[1])
                st.event(('asked', c.m, nm))
                if c.m == 'is_present': return [(st, ('s', I.mk('present', nm or '?'), c.dti))]
                if c.m == 'values_of_os' and nm == 'arguments':
                    if not nwords: return [(st, ('a', c.dti, 0, ()))]
                    it = I.types[c.dti]['v'][1]['f'][0][1]
                    return [(st, ('a', c.dti, 1, (('a', it, 'list', tuple(('r', ('n', 'w%d' % i), ()) for i in range(nwords))),)))]
            if c.dti is None: return None
            st.ctr += 1
            t = I.mk('clap', c.m, ('n', st.ctr))
            ts = tuple(I.term(st, x) for x in c.args)
            b = [x for y in ts[(1 if c.m not in ('with_name', 'new') else 0):] for x in find_bytes(I, y)]
            st.event(('clap', c.m, t, ts, tuple(x.decode() for x in b)))
            return [(st, ('s', t, c.dti))]
        if c.m in ('is_file', 'exists', 'is_dir', 'is_absolute', 'is_relative', 'has_root', 'try_exists') and len(c.args) == 1 and P.types[c.dti]['s'] == 'bool':
            w = word(I, st, c.args[0])
            return [(st, ('s', I.mk('ask', c.m, w or '?'), c.dti))]
        if c.m in ('eq', 'ne') and len(c.args) == 2:
            ws = [word(I, st, x) for x in c.args]
            w = ws[0] or ws[1]
            bs = find_bytes(I, I.term(st, c.args[1] if ws[0] else c.args[0])) if w else []
            if w and not (ws[0] and ws[1]) and len(bs) == 1:
                q = I.mk('textis', w, bs[0])
                out = []
                for r in (1, 0):
                    if st.facts.get(q, r) != r: continue
                    s2 = st.copy(); s2.facts[q] = r
                    out.append((s2, I.boolv(bool(r) == (c.m == 'eq'))))
                return out
        if c.m in SAME and len(c.args) == 1 and c.dti is not None and (c.ats[0] is None or base(P, c.ats[0]) in TEXTY) and base(P, c.dti) in TEXTY:
            w = word(I, st, c.args[0])
            if w is None: return None
            if P.types[c.dti]['k'] == 'ref': return [(st, ('r', ('n', w), ()))]
            return [(st, ('s', I.mk('text', w), c.dti))]
        return None
    return hook

def name_of(I, st, v):
    b = find_bytes(I, I.term(st, v))
    return b[0].decode() if len(b) == 1 else None

def idx(P, tyname_, names):
    t = need(ty(P, tyname_), tyname_)
    d = {f[0]: i for i, f in enumerate(P.types[t]['v'][0]['f'])}
    return [need([d[n]] if n in d else None, n)[0] for n in names]

def parse_fn(P):
    return need([f for f in P.fns if f.get('local') and f['kind'] == 'item' and f.get('dk') != 'Closure' and tnorm(P.types[f['locals'][0]]['s']).startswith('std::result::Result<args::Command,')], 'parsing of the command line')[0]

def opaque_clap(g): return g.get('krate') == 'clap' or g['n'].startswith('clap::') or '::fmt' in g['n']

def is_dash(I, st, i):
    """is word i known to be a single - (True), known not to be (False)"""
    w = I.mk('word', ('n', i))
    q = st.facts.get(I.mk('textis', 'w%d' % i, b'-'))
    if q is not None: return bool(q)
    ln = None; ch = None
    def about(t): return mentions(I, t, w)
    for k, v in st.facts.items():
        x = I.T.t[k]
        if x[0] == 'len' and about(k): ln = v
        elif x[0] == 'ci' and about(k) and str(x[2]) in ('0', "('n', 0)"): ch = v
        elif x[0] == 'Eq' and about(k) and I.T.t[x[1]][0] == 'len' and I.T.t[x[2]][0] == 'k' and I.T.t[x[2]][1][1] == 1: ln = 1 if v else -1
    if ln == 1 and ch == 45: return True
    if ln is not None and ln != 1: return False
    if ch is not None and ch != 45: return False
    for k, no in st.nots.items():
        x = I.T.t[k]
        if x[0] == 'ci' and about(k) and 45 in no: return False
        if x[0] == 'len' and about(k) and 1 in no: return False
    for k, (lo, hi) in st.iv.items():
        x = I.T.t[k]
        if x[0] == 'len' and about(k) and (lo > 1 or hi < 1): return False
        if x[0] == 'ci' and about(k) and (lo > 45 or hi < 45): return False
    return None

def parse(P, R, tier):
    fn = parse_fn(P)
    u8s = need(P.ty_by_s.get('[u8]'), 'bytes')
    fl = idx(P, 'args::Args', ['script_path', 'script_args'] + [x[1] for x in FLAGS])
    ct = need(ty(P, 'args::Command'), 'Command')
    run = need([i for i, v in enumerate(P.types[ct]['v']) if v['n'] == 'Run'], 'Run')[0]
    top = 7 if tier == 'thorough' else 6
    seen = set()
    for n in range(top):
        I = Interp(P, hooks=[words_hook(n), ident_copy], max_visits=n + 3, max_depth=30, opaque=opaque_clap)
        for i in range(n): I.const_mem[('n', 'w%d' % i)] = ('s', I.mk('word', ('n', i)), u8s)
        for st in I.run(fn, [('s', I.mk('arg', ('n', i)), fn['locals'][i]) for i in range(1, fn['args'] + 1)]):
            if st.end in ('cut', 'infeasible'): continue
            def bad(k, m): R.bad('parse:' + k, 'with %d words after the flags %s; %s' % (n, m, fmt_path(I, st)))
            R.count('paths')
            if st.end != 'return': bad('crash', 'the interpreter crashes'); continue
            r = st.ret
            a = None
            if r[0] == 'a' and r[2] == 0 and r[3][0][0] == 'a' and r[3][0][2] == run: a = r[3][0][3][0]
            if a is None or a[0] != 'a': bad('refused', 'a valid command line runs nothing'); continue
            flags = app_flags(P, R, I, st)
            for (long, field), ix in zip(FLAGS, fl[2:]):
                t = I.T.t[I.term(st, a[3][ix])]
                if t[0] != 'present' or flags.get(t[1]) != long: bad('flag:' + long, '%s is not whether --%s was given' % (field, long))
            path, rest = a[3][fl[0]], content(I, st, a[3][fl[1]])
            if path[0] != 'a' or rest[0] != 'a' or rest[2] not in ('vec', 'array'): bad('form', 'the script and its arguments cannot be told'); continue
            got = word(I, st, path[3][0]) if path[2] == 1 else None
            if path[2] == 1 and got is None: bad('path', 'the script is not a word of the command line, unchanged'); continue
            rest = [word(I, st, x) for x in rest[3]]
            ws = ['w%d' % i for i in range(n)]
            dash = is_dash(I, st, 0) if n else None
            isf = [v for k, v in st.facts.items() if I.T.t[k][0] == 'ask' and I.T.t[k][1:] == ('is_file', 'w0')]
            if not n: want, wr, why = None, [], 'no word'
            elif dash: want, wr, why = None, ws[1:], 'the first is -'
            elif isf and isf[0] == 1: want, wr, why = 'w0', ws[1:], 'the first is a file'
            elif isf and isf[0] == 0: want, wr, why = None, ws, 'the first is no file'
            else: bad('case', 'it is not told what the first word is'); continue
            if isf and isf[0] == 1 and dash is None: bad('dash', 'a file named - would be run although - is standard input'); continue
            seen.add(why)
            if got != want: bad('script:' + why, 'and %s, the script is %s' % (why, 'standard input' if got is None else 'word %d' % (int(got[1:]) + 1)))
            if rest != wr: bad('rest:' + why, 'and %s, the arguments of the script are %s' % (why, ', '.join('word %d' % (int(x[1:]) + 1) if x else 'something else' for x in rest) or 'none'))
    for w in ('no word', 'the first is -', 'the first is a file', 'the first is no file'):
        if w not in seen: R.bad('parse:never:' + w, 'the case "%s" is never met' % w)
    R.floor('paths', 12)

def app_flags(P, R, I, st):
    """{name: long option} as declared to the parser; what the words are is checked too"""
    out = {}
    positional = None; allow = multi = trailing = hyphen = False
    chain = {}
    for e in st.events():
        if e[0] != 'clap': continue
        _, m, res, ts, names = e
        if m in ('with_name',): chain[res] = {'name': names[0] if names else None}
        elif ts and ts[0] in chain:
            d = dict(chain[ts[0]]); chain[res] = d
            if m == 'long': d['long'] = names[0] if names else None
            elif m in ('multiple', 'allow_hyphen_values', 'takes_value', 'last', 'raw', 'index', 'hidden'): d[m] = val_of(I, ts[1]) if len(ts) > 1 else None
        elif m == 'arg':
            d = chain.get(ts[1]) if len(ts) > 1 else None
            if d is None: continue
            if d.get('long'): out[d['name']] = d['long']
            elif d['name'] == 'arguments': positional = d
        elif m in ('setting', 'global_setting') and len(ts) > 1:
            s = setting(P, I, ts[1])
            if s == 'TrailingVarArg': trailing = True
            elif s == 'AllowLeadingHyphen': hyphen = True
    if positional is None: R.bad('app:words', 'the words after the flags are not declared to the parser')
    else:
        if positional.get('multiple') != 1: R.bad('app:multiple', 'only one word is accepted after the flags')
        if positional.get('allow_hyphen_values') != 1 and not hyphen: R.bad('app:hyphen', 'a word which starts with - is not accepted after the flags')
        if not trailing: R.bad('app:trailing', 'flags among the arguments of the script are taken for flags of the interpreter')
    return out

def val_of(I, t):
    k = I.T.t[t]
    return k[1][1] if k[0] == 'k' else None

def setting(P, I, t):
    k = I.T.t[t]
    ti = ty(P, 'clap::AppSettings')
    if k[0] == 'agg' and k[1] == 'clap::AppSettings' and ti is not None and str(k[2]).isdigit(): return P.types[ti]['v'][int(k[2])]['n']
    return None

CONV = ('into_vec', 'into_iter', 'into', 'from', 'to_vec', 'clone', 'into_boxed_slice', 'iter', 'cloned', 'collect', 'copied', 'as_os_str', 'as_bytes', 'as_path', 'as_ref', 'deref', 'borrow', 'to_owned')

def only_conv(I, t, x, d=14):
    """term t is x after conversions which keep the content"""
    if t == x: return True
    if d <= 0: return False
    k = I.T.t[t]
    if k[0] in ('&', '*', 'as') or k[0] == 'slice' and len(k) == 2: return only_conv(I, k[1], x, d - 1)
    if k[0] == 'call' and k[1].rsplit('::', 1)[-1] in CONV and len(k[2]) >= 1: return only_conv(I, k[2][0], x, d - 1)
    return False

def entry(P, R, tier):
    S = Stages(P)
    I, res, mainf = explore_main(P, S, 2)
    fl = idx(P, 'args::Args', ['script_path', 'script_args'])
    ct = need(ty(P, 'args::Command'), 'Command')
    run = [i for i, v in enumerate(P.types[ct]['v']) if v['n'] == 'Run'][0]
    n = 0; kinds = set()
    for st in res:
        args = [e for e in st.events() if e[0] == 'stage' and e[1] == 'args']
        if not args: continue
        def bad(k, m): R.bad('main:' + k, m + '; ' + fmt_path(I, st))
        given = args[0][3]
        if len(given) != 1 or I.T.t[given[0]][0] != 'call' or I.T.t[given[0]][1].rsplit('::', 1)[-1] != 'args_os': bad('words', 'the words looked at are not those of the command line')
        a = I.mk('f', I.mk('d', I.mk('f', I.mk('d', args[0][2], ('n', 0)), ('n', 0)), ('n', run)), ('n', 0))
        sp, sa = (I.mk('f', a, ('n', i)) for i in fl)
        path = I.mk('f', I.mk('d', sp, ('n', 1)), ('n', 0))
        for e in st.events():
            if e[0] != 'stage': continue
            if e[1] == 'load':
                n += 1
                d = disc_of(I, st, sp)
                R.count('loads')
                ts = e[3]
                fname = e[2]
                stdin = any(stdin_in(I, t) for t in ts)
                if d is None: bad('blind', 'the source is loaded without looking whether a script was named')
                elif d == 1:
                    kinds.add('file')
                    sym = [t for t in ts if I.T.t[t][0] == 'call' and I.T.t[t][1].endswith('get_or_intern')]
                    if stdin or not any(intern_of(I, t, path) for t in ts): bad('file', 'a script was named, but the source loaded is not that file')
                elif d == 0:
                    kinds.add('stdin')
                    if not stdin: bad('stdin', 'no script was named, but the source is not read from standard input')
            if e[1] == 'eval':
                R.count('evaluations')
                rt = [t for t in e[3] if mentions(I, t, sa)]
                news = [k for t in e[3] for k in calls_in(I, t, 'runtime::Runtime::new')]
                if not rt: bad('args', 'the arguments of the script do not reach the runtime')
                elif news and not all(any(only_conv(I, x, sa) for x in I.T.t[k][2]) for k in news): bad('args-changed', 'the runtime is not given the arguments of the script as they are')
    for k in ('file', 'stdin'):
        if k not in kinds: R.bad('main:never:' + k, 'the source is never loaded from %s' % k)
    R.floor('loads', 4); R.floor('evaluations', 2)

def calls_in(I, t, name, d=14, memo=None):
    memo = set() if memo is None else memo
    if t in memo or d <= 0: return []
    memo.add(t)
    k = I.T.t[t]; out = []
    if k[0] == 'call' and k[1].split('<')[0].startswith(name): out.append(t)
    for p in k[1:]:
        if isinstance(p, bool): continue
        if isinstance(p, int): out += calls_in(I, p, name, d - 1, memo)
        elif isinstance(p, tuple) and not (p and p[0] == 'n'):
            for q in p:
                if isinstance(q, int) and not isinstance(q, bool): out += calls_in(I, q, name, d - 1, memo)
    return out

def stdin_in(I, t): return bool(calls_in(I, t, 'std::io::stdin'))

def intern_of(I, t, path):
    """t is the symbol of the text of path"""
    k = I.T.t[t]
    if k[0] in ('&', '*', 'f', 'd'): return intern_of(I, k[1], path)
    if k[0] == 'agg' and len(k[3]) == 1: return intern_of(I, k[3][0], path)
    if k[0] == 'call' and k[1].rsplit('::', 1)[-1].startswith(('get_or_intern', 'intern')): return any(only_conv(I, x, path) for x in k[2])
    return only_conv(I, t, path)


STRY = TEXTY + ('runtime::value::string::Str', 'gc::Gc<std::boxed::Box<[u8]>>', 'runtime::mem::Gc<std::boxed::Box<[u8]>>')

def text_values(I, st, c):
    """texts keep what they are through conversions, into strings of the language too"""
    P = I.P
    if c.m in SAME and len(c.args) == 1 and c.dti is not None and base(P, c.dti) in TEXTY + (STR,):
        w = word(I, st, c.args[0])
        if w is None or P.types[c.dti]['k'] == 'ref': return None
        return [(st, ('s', I.mk('text', w), c.dti))]
    return None

STR = 'runtime::value::string::Str'

def elements(V, I, st, v):
    if v[0] != 'a' or v[1] != V.v or v[2] != V.kinds.index('Array'): return None
    v = content(I, st, v[3][0])
    if v[0] != 'a' or v[2] not in ('vec', 'array'): return None
    out = []
    for x in v[3]:
        if x[0] != 'a' or x[1] != V.v or x[2] != V.kinds.index('String'): out.append(None); continue
        out.append(word(I, st, content(I, st, x[3][0])))
    return out

def content_args(I, st, r):
    return r[0] == 'value' and I.T.t[I.term(st, r[1])] == ('field', 'runtime::Runtime', 'args')

def runtime(P, R, tier):
    fns = [f for f in P.fns if f.get('local') and f['kind'] == 'item' and f.get('dk') != 'Closure' and P.types[f['locals'][0]]['s'] == 'runtime::Runtime' and f['args'] >= 1]
    need(fns, 'creation of the runtime')
    boxed = P.ty_by_s.get('std::boxed::Box<[u8]>')
    ai, = idx(P, 'runtime::Runtime', ['args'])
    top = 7 if tier == 'thorough' else 6
    for fn in fns:
        pos = [i for i in range(1, fn['args'] + 1) if 'Box<[u8]>' in P.types[fn['locals'][i]]['s']]
        if len(pos) != 1: R.bad('runtime:args', 'the runtime is created without the arguments of the script'); continue
        for n in range(top):
            I = Interp(P, hooks=[text_values, maps.maps, ident_copy], max_visits=n + 3, max_depth=30, opaque=lambda g: g['n'].startswith(('runtime::lib', 'symbol::')) or '::fmt' in g['n'])
            V = Vals(P, I)
            args = []
            for i in range(1, fn['args'] + 1):
                ti = fn['locals'][i]
                args.append(('a', ti, 'vec', tuple(('s', I.mk('text', 'w%d' % j), boxed) for j in range(n))) if i == pos[0] else ('s', I.mk('arg', ('n', i)), ti))
            for st in I.run(fn, args):
                if st.end in ('cut', 'infeasible'): continue
                R.count('runtimes')
                def bad(k, m): R.bad('runtime:' + k, 'with %d arguments %s; %s' % (n, m, fmt_path(I, st)))
                if st.end != 'return' or st.ret[0] != 'a': bad('crash', 'no runtime is created'); continue
                got = elements(V, I, st, st.ret[3][ai])
                if got != ['w%d' % j for j in range(n)]: bad('order', 'std.args holds %s' % (got if got is None else ', '.join('argument %d' % (int(x[1:]) + 1) if x else 'something else' for x in got) or 'nothing'))
    R.floor('runtimes', 4)
    E = Eval(P)
    fn = need(natives(P).get('std.args'), 'std.args')
    ok = 0
    I, res = explore_native(E, fn, lambda V: [])
    ti = ty(P, 'runtime::Runtime')
    for st in res:
        R.count('std_args')
        r = result_of(I, st)
        v = content_args(I, st, r)
        if v: ok += 1
        else: R.bad('std.args', 'std.args gives something else than the arguments of the script; ' + fmt_path(I, st))
    if not ok: R.bad('std.args:never', 'std.args never returns')

def load(P, R, tier):
    S = Stages(P)
    ti = need(ty(P, 'syntax::source::Source'), 'Source')
    pi, ci = idx(P, 'syntax::source::Source', ['path', 'contents'])
    for fid in sorted(S.ids['load']):
        fn = P.by_id[fid] if hasattr(P, 'by_id') else [f for f in P.fns if f['id'] == fid][0]
        I = Interp(P, hooks=[ident_copy], max_visits=2, max_depth=20, opaque=lambda g: g['n'].startswith('symbol::') or '::fmt' in g['n'])
        sym = [i for i in range(1, fn['args'] + 1) if P.types[fn['locals'][i]]['s'] == 'symbol::Symbol']
        reader = [i for i in range(1, fn['args'] + 1) if 'Read' in P.types[fn['locals'][i]]['s'] or 'File' in P.types[fn['locals'][i]]['s'] or 'Stdin' in P.types[fn['locals'][i]]['s'] or 'std::io' in P.types[fn['locals'][i]]['s']]
        for st in I.run(fn, [('s', I.mk('arg', ('n', i)), fn['locals'][i]) for i in range(1, fn['args'] + 1)]):
            if st.end in ('cut', 'infeasible'): continue
            def bad(k, m): R.bad('load:' + k, 'loading a source %s; %s' % (m, fmt_path(I, st)))
            if st.end != 'return':
                if any(e[0] == 'noreturn' and 'expect' in str(e[1]) for e in st.events()): continue       # an unknown symbol
                R.count('load_crashes'); continue
            R.count('load_paths')
            err = st.ret[0] == 'a' and st.ret[2] == 1
            failed = [k for k, v in st.facts.items() if v == 1 and I.T.t[k][0] == 'disc' and I.T.t[I.T.t[k][1]][0] == 'call' and I.T.t[I.T.t[k][1]][1].rsplit('::', 1)[-1] in ('open', 'read_to_end', 'read')]
            if failed and not err: bad('quiet', 'which cannot be read gives a source all the same')
            if err or failed: continue
            if st.ret[0] != 'a' or st.ret[3][0][0] != 'a': bad('form', 'gives an unknown source'); continue
            a = st.ret[3][0][3]
            if sym and I.term(st, a[pi]) != I.mk('arg', ('n', sym[0])): bad('path', 'gives it another path')
            t = I.term(st, a[ci])
            rd = read_of(I, t)
            looked = any(st.facts.get(k) == 0 and I.T.t[k][0] == 'disc' and I.T.t[I.T.t[k][1]][0] == 'call' and I.T.t[I.T.t[k][1]][1].rsplit('::', 1)[-1] in ('read_to_end', 'read') for k in st.facts)
            if not looked: bad('quiet', 'gives a source whether it could be read or not'); continue
            if rd is None: bad('contents', 'does not give it the whole of what was read (%s)' % I.show(t, 5)[:160]); continue
            if reader:
                if rd != I.mk('arg', ('n', reader[0])): bad('reader', 'reads something else than what it was given')
            elif not file_of(I, rd, I.mk('arg', ('n', sym[0])) if sym else None): bad('file', 'reads something else than the file it was asked for (%s)' % I.show(rd, 6)[:160])
    R.floor('load_paths', 5)

def strip(I, t, names=()):
    for _ in range(20):
        k = I.T.t[t]
        if k[0] in ('&', '*', 'f', 'd', 'boxed', 'as') or k[0] == 'slice' and len(k) == 2: t = k[1]
        elif k[0] == 'call' and k[1].rsplit('::', 1)[-1] in names and k[2]: t = k[2][0]
        else: break
    return t

def read_of(I, t):
    """what the whole content t was read from"""
    t = strip(I, t, CONV)
    k = I.T.t[t]
    if k[0] == 'mut':
        c = I.T.t[k[1]]
        if c[0] == 'call' and c[1].rsplit('::', 1)[-1] == 'read_to_end' and len(c[2]) == 2 and k[2] == ('n', 1):
            b = I.T.t[strip(I, c[2][1])]
            if b[0] == 'agg' and not b[3]: return strip(I, c[2][0], ('new', 'by_ref', 'lock'))
    if k[0] == 'call' and k[1] == 'std::fs::read': return t
    return None

def file_of(I, t, sym):
    k = I.T.t[t]
    if k[0] != 'call' or k[1] not in ('std::fs::File::open', 'std::fs::read'): return False
    p = I.T.t[strip(I, k[2][0], ('from_bytes', 'new', 'as_ref', 'from', 'into', 'to_owned', 'to_path_buf'))]
    return p[0] == 'call' and p[1].rsplit('::', 1)[-1] == 'resolve' and sym in p[2]

def check(P, R, tier):
    parse(P, R, tier)
    entry(P, R, tier)
    runtime(P, R, tier)
    load(P, R, tier)
