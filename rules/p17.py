"""Values interpolated into commands are never split or glob-expanded."""
from world import *
import itertools

TECHNIQUE = 'path-sensitive dataflow of argument construction with symbolic bytes and values, the resulting arguments and patterns compared with a reference'
RULE = ('The evaluator is followed on commands whose arguments are explicit sequences of parts: literal text of arbitrary bytes, interpolated values of every type, arrays of them, home directory, ranges, collections and patterns. '
        'On every path the arguments the process is started with are those of the reference: a value or literal stands for its own bytes in every position, an argument with an array stands for one argument per element, '
        'the pattern handed to the file search has no character of a literal or value that would be read as a pattern, patterns come from the pattern parts only, and each match is one argument, with ./ before it when the pattern is relative. '
        'Values of other types, unreadable patterns and programs, environment variables or directories which do not expand to one item raise a panic and nothing is started.')
ASSUMPTIONS = ['literals and values of 1 or 2 arbitrary bytes, arrays of up to 3 elements, up to 3 parts (longer ones run the same loops)', 'the glob crate reads ? * [ ] as pattern characters and [x] as the character x', 'matches of a pattern are arbitrary paths']

META = (63, 42, 91, 93)

class Spec:
    """a part, and the alternatives of text it stands for"""
    def __init__(s, name, part, ref, slot=None): s.name = name; s.part = part; s.ref = ref; s.slot = slot
# ref: list of alternatives (None: refused with a panic); an alternative is a tuple of tokens: int | ('b', name, i) symbolic byte | ('num', name) | ('pat', bytes) | 'home'

def B(name, n=1): return tuple(('b', name, i) for i in range(n))

def parts(tier):
    L = [
        Spec('literal', lambda k: Lit(sym=('L%d' % k, 1)), lambda k: [B('L%d' % k)]),
        Spec('"*a"', lambda k: Lit('*a'), lambda k: [(42, 97)]),
        Spec('""', lambda k: Lit(''), lambda k: [()]),
        Spec('$string', lambda k: ('$', k), lambda k: [B('S%d' % k, 2)], lambda V, k: V.string(V.symbytes(2, 'S%d' % k), 's%d' % k)),
        Spec('$array', lambda k: ('$', k), lambda k: [B('A%d' % k), (32, 45), ()], lambda V, k: V.array([V.string(V.symbytes(1, 'A%d' % k), 'a%d' % k), V.string(b' -', 'x%d' % k), V.nil()], 'arr%d' % k)),
        Spec('*', lambda k: ('Star',), lambda k: [(('pat', b'*'),)]),
        Spec('%', lambda k: ('Percent',), lambda k: [(('pat', b'?'),)]),
        Spec('[ab]', lambda k: ('CharClass', Lit('ab')), lambda k: [(('pat', b'[ab]'),)]),
        Spec('~', lambda k: ('Home',), lambda k: [('home',)]),
        Spec('{1..2}', lambda k: ('Range', 1, 2), lambda k: [(49,), (50,)]),
        Spec('{a, $string}', lambda k: ('Collection', [Lit('a'), ('$', k)]), lambda k: [(97,), B('C%d' % k)], lambda V, k: V.string(V.symbytes(1, 'C%d' % k), 'c%d' % k)),
    ]
    return L

def values():
    """interpolation of each type of value: name, value, alternatives or None for a panic"""
    V_ = lambda f: (lambda V, k: f(V))
    return [
        ('nil', V_(lambda V: V.nil()), [()]), ('true', V_(lambda V: V.bool(1)), [tuple(b'true')]), ('false', V_(lambda V: V.bool(0)), [tuple(b'false')]), ('int', V_(lambda V: V.sym('Int', 'i')), [(('num', 'i'),)]), ('-5', V_(lambda V: V.int(-5)), [(45, 53)]), ('float', V_(lambda V: V.sym('Float', 'f')), [(('num', 'f'),)]),
        ('byte', V_(lambda V: V.mk('Byte', ('s', V.I.mk('Y', ('n', 0)), V.fti('Byte')))), [B('Y')]), ('empty string', V_(lambda V: V.string(b'')), [()]), ('string of 3', V_(lambda V: V.string(V.symbytes(3, 'T'))), [B('T', 3)]),
        ('empty array', V_(lambda V: V.array([])), []), ('array of 1', V_(lambda V: V.array([V.string(V.symbytes(1, 'E'))])), [B('E')]),
        ('array of ints', V_(lambda V: V.array([V.int(7), V.int(42)])), [(55,), (52, 50)]),
        ('dict', V_(lambda V: V.sym('Dict', 'd')), None), ('function', V_(lambda V: V.sym('Function', 'd')), None), ('error', V_(lambda V: V.sym('Error', 'd')), None),
        ('array of array', V_(lambda V: V.array([V.string(b'x', 'in'), V.array([], 'inner')])), None), ('array of dict', V_(lambda V: V.array([V.sym('Dict', 'd')])), None)]

def tok(I, st, t):
    """token of the reference on a path: known byte, or term"""
    if isinstance(t, int) or t == 'home' or t[0] in ('pat', 'num'): return t
    tm = I.mk(t[1], ('n', t[2]))
    v = I.norm(st, ('s', tm, I.P.ty_by_s['u8']))
    return v[1] if v[0] == 'k' else ('t', tm)

def product(alts):
    out = [()]
    for a in alts: out = [x + y for y in a for x in out]
    return out

def expand(I, st, ref, home):
    """reference of one argument: [('lit', tokens) | ('glob', tokens)]"""
    items = product(ref)
    out = []
    for x in items:
        x = tuple(y for t in x for y in (home if t == 'home' else (tok(I, st, t),)))
        out.append(('glob' if any(isinstance(t, tuple) and t[0] == 'pat' for t in x) else 'lit', x))
    return out

def not_meta(I, st, t):
    n = st.nots.get(t, ())
    lo, hi = st.iv.get(t, (0, 255))
    return all(m in n or not lo <= m <= hi for m in META)

def parse_glob(I, st, text):
    """what a pattern handed to the search means: tokens, ('pat', bytes) for pattern characters"""
    out = []; i = 0
    text = list(text)
    while i < len(text):
        c = text[i]
        if c == 42: out.append(('pat', b'*')); i += 1
        elif c == 63: out.append(('pat', b'?')); i += 1
        elif c == 91:
            j = i + 1
            while j < len(text) and (text[j] != 93 or j == i + 1): j += 1
            inner = text[i + 1:j]
            if j >= len(text): return None
            if len(inner) == 1 and inner[0] != 33: out.append(inner[0])
            elif all(isinstance(x, int) for x in inner): out.append(('pat', b'[' + bytes(inner) + b']'))
            else: return None
            i = j + 1
        elif isinstance(c, int): out.append(c); i += 1
        else:
            if not not_meta(I, st, c[1]) and not istext(I, c[1]): return ('unsafe', c)
            out.append(c); i += 1
    return tuple(out)

def istext(I, t): return I.T.t[t][0] == 'globbed'

def norm_tokens(I, st, text):
    if text and text[0] == 't': return (text,)
    out = []
    for x in text:
        if isinstance(x, tuple) and x[0] == 't':
            v = I.norm(st, ('s', x[1], I.P.ty_by_s['u8']))
            out.append(v[1] if v[0] == 'k' else x)
        else: out.append(x)
    return tuple(out)

def mentions(I, t, pred, depth=12):
    stack = [(t, depth)]; seen = set()
    while stack:
        t, d = stack.pop()
        if t in seen or d <= 0: continue
        seen.add(t)
        k = I.T.t[t]
        if pred(k): return True
        for p in k[1:]:
            if isinstance(p, bool): continue
            if isinstance(p, int): stack.append((p, d - 1))
            elif isinstance(p, tuple) and not (p and p[0] == 'n'): stack += [(q, d - 1) for q in p if isinstance(q, int) and not isinstance(q, bool)]
    return False

def same(I, st, got, want):
    """sequences of tokens, with the texts of numbers standing for themselves"""
    if len(got) != len(want): return False
    for g, w in zip(got, want):
        if isinstance(w, tuple) and w[0] == 'num':
            if not (isinstance(g, tuple) and g[0] == 't' and mentions(I, g[1], lambda k: k[0] == 'v' and k[1] == w[1]) and mentions(I, g[1], lambda k: k[0] == 'call' and ('to_string' in k[1] or 'fmt' in k[1] or 'format' in k[1]))): return False
        elif g != w: return False
    return True

def homes(I, st):
    """text of the home directory on a path"""
    evs = os_events(st)
    return any(e[0] == 'getenv' and e[1] == tuple(b'HOME') for e in evs)

def judge(W, R, I, st, label, args, prog='c00'):
    """args: [reference of each argument, in order]"""
    P = W.P
    R.count('paths')
    def bad(k, m): R.bad(k, '%s: %s, when: %s' % (label, m, story(I, st, 12)))
    if st.end == 'cut': bad('cut', 'arguments are built by code that cannot be followed'); return
    if st.end != 'return': bad('end', 'the interpreter crashes'); return
    evs = os_events(st)
    cmds, other = happened(I, st)
    c = cmds.get(prog)
    panic = st.ret[0] == 'a' and st.ret[2] == 1
    if any(a is None for a in args):
        if c is not None and c.tried: bad('type-ran', 'the command is started with a value of a type it cannot take'); return
        if not panic: bad('type-quiet', 'no panic is raised for a value of a type it cannot take')
        elif panic_name(I, st.ret[3][0]) != 'TypeError': bad('type-panic', 'the panic is %s' % panic_name(I, st.ret[3][0]))
        R.count('refused')
        return
    if any(e[0] == 'fail' and e[1] in ('glob', 'utf8') for e in evs):
        R.count('bad_patterns')
        if c is not None and c.tried: bad('glob-ran', 'the command is started although a pattern is invalid')
        if not panic: bad('glob-quiet', 'no panic is raised for an invalid pattern')
        return
    if panic: bad('panic', 'a panic is raised'); return
    if c is None or not c.tried: bad('not-run', 'the command is not started'); return
    uses_home = any(t == 'home' for a in args for alt in a for x in alt for t in x)
    options = [()]
    if uses_home:
        if not homes(I, st): bad('home', 'the home directory is not looked up'); return
        h0 = ('t', I.mk('home', ('n', 0)))
        hv = I.norm(st, ('s', h0[1], P.ty_by_s['u8']))
        hb = hv[1] if hv[0] == 'k' else h0
        # unset, set, set and ending in a slash
        options = [(), (hb, 47), (hb,)] if hb == 47 else [(), (hb, 47)]
    why = None
    for home in options:
        why = compare(W, R, I, st, c, args, home, evs)
        if why is None: R.count('argument_lists'); return
    bad(*why)

def compare(W, R, I, st, c, args, home, evs):
    got = [norm_tokens(I, st, t) for t in c.args]
    globs = [norm_tokens(I, st, e[1]) for e in evs if e[0] == 'glob']
    pos = 0; gpos = 0
    for a in args:
        want = expand(I, st, a, home)
        many = sum(1 for x in a if len(x) > 1) > 1
        if not want: continue
        if want[0][0] == 'lit':
            mine = got[pos:pos + len(want)]
            if len(mine) < len(want): return ('count', 'there are too few arguments')
            rest = [w for _, w in want]
            for i, g in enumerate(mine):
                j = next((j for j, w in enumerate(rest) if same(I, st, g, w)), None) if many else (0 if same(I, st, g, rest[0]) else None)
                if j is None: return ('text', 'the command gets the argument %s where %s is written' % (txt(g), txt(rest[0]) if rest else 'nothing'))
                rest.pop(j)
            pos += len(want)
        else:
            mine = globs[gpos:gpos + len(want)]
            if len(mine) < len(want): return ('nosearch', 'a pattern is not searched for')
            rest = [w for _, w in want]
            for g in mine:
                pg = parse_glob(I, st, g)
                if pg is None: return ('pattern', 'the pattern %s cannot be understood' % txt(g))
                if pg and pg[0] == 'unsafe': return ('unescaped', 'the pattern searched for is %s, in which a byte of a value may be read as a pattern' % txt(g))
                j = next((j for j, w in enumerate(rest) if same(I, st, pg, w)), None)
                if j is None: return ('pattern', 'the pattern searched for is %s, which does not mean what is written' % txt(g))
                rest.pop(j)
                absolute = bool(g) and g[0] == 47
                # matches of this search, in order
                k = 0
                for t in matches(I, st, g, evs, gpos):
                    if pos >= len(got): return ('match', 'a match of a pattern is not passed')
                    x = got[pos]
                    okk = x in ((('t', t),),) if absolute else x == (46, 47, ('t', t))
                    if not okk: return ('match', 'a match of the %s pattern is passed as %s' % ('absolute' if absolute else 'relative', txt(x)))
                    pos += 1
                gpos += 1
    if pos != len(got): return ('surplus', 'the command gets %d arguments more than are written' % (len(got) - pos))
    if gpos != len(globs): return ('search', 'files are searched for although no pattern is written')
    return None

def matches(I, st, g, evs, k):
    """terms of the paths found by the k-th search"""
    out = []
    i = -1
    for e in evs:
        if e[0] == 'glob': i += 1
        if e[0] == 'found' and i == k: out.append(e[1])
    return out

def check(P, R, tier):
    W = World(P)
    L = parts(tier)
    nofail = ('dup', 'open', 'pipe', 'read', 'spawn', 'write')
    def slots(specs):
        return lambda V: {k: s.slot(V, k) for k, s in enumerate(specs) if s.slot is not None}
    def one(specs, nglob=((1,),), more=(), nofail=nofail + ('glob', 'utf8')):
        I, res = W.run('Synchronous', [[{'args': [[s.part(k) for k, s in enumerate(specs)]] + list(more)}]], slots=slots(specs), outcomes=('zero',), nglob=nglob, nofail=nofail, max_paths=20000, max_visits=24)
        R.count('arguments')
        ref = [[s.ref(k) for k, s in enumerate(specs)]] + [[[tuple(m.encode())]] for m in more]
        for st in res: judge(W, R, I, st, 'the argument %s' % ' '.join(s.name for s in specs), ref)
    for s in L: one([s], nglob=((), (1,), (1, 1), (0, 1)), nofail=nofail)
    for a in L:
        for b in L: one([a, b], more=('end',))
    three = [s for s in L if s.name in ('literal', '$array', '*', '~', '{1..2}')]
    for t in itertools.product(three, repeat=3) if tier == 'thorough' else [t for t in itertools.product(three, repeat=3) if sum(s.name == '*' for s in t) == 1 and sum(s.name == '~' for s in t) == 0]:
        one(list(t))
    # one value of each type, alone, before a pattern and after one
    for nm, v, ref in values():
        for shape in ('$', '*$', '$*', 'a$'):
            if not ref and ref is not None and shape != '$': continue
            ps = {'$': [('$', 0)], '*$': [('Star',), ('$', 0)], '$*': [('$', 0), ('Star',)], 'a$': [Lit('a'), ('$', 0)]}[shape]
            I, res = W.run('Synchronous', [[{'args': [ps]}]], slots=lambda V: {0: v(V, 0)}, outcomes=('zero',), nglob=((1,),), nofail=nofail)
            R.count('values')
            r = None if ref is None else [{'$': lambda: ref, '*': lambda: [(('pat', b'*'),)], 'a': lambda: [(97,)]}[x]() for x in shape]
            for st in res: judge(W, R, I, st, 'a value (%s) in the argument %s' % (nm, shape), [r])
    singles(W, R, nofail)
    R.floor('arguments', 130); R.floor('values', 60); R.floor('argument_lists', 300); R.floor('refused', 15); R.floor('bad_patterns', 20); R.floor('single_items', 25)

def singles(W, R, nofail):
    """program, environment variables and the directory of cd: exactly one item"""
    P = W.P
    vals = [('a string', lambda V: V.string(V.symbytes(1, 'Q')), 1), ('nil', lambda V: V.nil(), 1), ('an array of none', lambda V: V.array([]), 0), ('an array of one', lambda V: V.array([V.string(V.symbytes(1, 'Q'))]), 1), ('an array of two', lambda V: V.array([V.string(b'x', 'x'), V.string(b'y', 'y')]), 2),
            ('an array of three', lambda V: V.array([V.string(b'x', 'x'), V.string(b'y', 'y'), V.string(b'z', 'z')]), 3), ('a dict', lambda V: V.sym('Dict', 'd'), None)]
    for what in ('program', 'env', 'key', 'cd'):
        for nm, mk, n in vals:
            if what == 'program': cs = [[{'program': [('$', 0)], 'args': ['x']}]]
            elif what == 'env': cs = [[{'env': [(Lit('K'), [('$', 0)])], 'args': ['x']}]]
            elif what == 'key': cs = [[{'env': [(('$', 0), 'v')], 'args': ['x']}]]
            else: cs = [{'builtin': 'Cd', 'args': [[('$', 0)]]}]
            I, res = W.run('Synchronous', cs, slots=lambda V: {0: mk(V)}, outcomes=('zero',), nofail=nofail + ('chdir',))
            for st in res:
                R.count('single_items')
                def bad(k, m): R.bad('%s:%s' % (what, k), '%s as %s: %s, when: %s' % (nm, {'program': 'program', 'env': 'the value of an environment variable', 'key': 'the name of an environment variable', 'cd': 'the argument of cd'}[what], m, story(I, st, 12)))
                if st.end != 'return': bad('end', 'the interpreter crashes' if st.end != 'cut' else 'cannot be followed'); continue
                evs = os_events(st)
                cmds, _ = happened(I, st)
                ran = any(c.tried for c in cmds.values()) or any(e[0] == 'chdir' for e in evs)
                panic = st.ret[2] == 1
                good = n == 1 and not (what == 'key' and nm.startswith('an array'))
                if not good:
                    if ran: bad('ran', 'the command is run')
                    if not panic: bad('quiet', 'no panic is raised'); continue
                    want = 'TypeError' if n is None or what == 'key' else 'InvalidCommandArgs'
                    if panic_name(I, st.ret[3][0]) != want: bad('panic', 'the panic is %s' % panic_name(I, st.ret[3][0]))
                    elif want == 'InvalidCommandArgs' and not count_is(P, I, st, st.ret[3][0], n): bad('number', 'the panic does not say that there are %d items' % n)
                    continue
                if panic: bad('panic', 'a panic is raised'); continue
                want = () if nm == 'nil' else tuple(tok(I, st, t) for t in B('Q'))
                if what == 'cd': got = [norm_tokens(I, st, e[1]) for e in evs if e[0] == 'chdir']
                elif what == 'program': got = [norm_tokens(I, st, e[2]) for e in evs if e[0] == 'new']
                else: got = [norm_tokens(I, st, e[3 if what == 'env' else 2]) for e in evs if e[0] == 'env']
                if got != [want]: bad('text', 'it is %s' % ', '.join(map(txt, got)))
                if what in ('env', 'key') and [norm_tokens(I, st, e[2 if what == 'env' else 3]) for e in evs if e[0] == 'env'] != [(75,) if what == 'env' else (118,)]: bad('other', 'the variable is not the one written')
                if any(e[0] == 'glob' for e in evs): bad('glob', 'files are searched for')

def count_is(P, I, st, p, n):
    """does the panic carry the number?"""
    for x in p[3]:
        x = I.norm(st, x)
        if x[0] == 'k' and x[2] is not None and P.types[x[2]]['k'] in ('uint', 'int'): return x[1] == n
    return True
