"""Scanning: every byte sequence becomes the tokens the lexical rules say."""
import interner
from lib import *
from lexer import Machine

TECHNIQUE = 'bisimulation of the scanner, as compiled, with a reference automaton, by abstract interpretation of one scanner step per state and byte'
RULE = ('The scanner\'s driver is followed from its initial state, for every state reached and each of the 256 bytes and the end of input, over symbolic positions and buffers. '
        'A reference automaton written from the lexical rules runs alongside: on each step both must emit the same token or error with the same position and payload, move the same way, and keep corresponding buffers and positions. '
        'The pairs reached are finitely many, so agreement on all of them is agreement on every input. The word table is compared word by word: exactly the reserved words are reserved. '
        'No cycle of steps may leave the position unchanged. A name is interned as exactly its own bytes, and a symbol resolves to what was interned under it.')
ASSUMPTIONS = ['u8::is_ascii_*, slices, Vec and str::parse behave as documented', 'a line or column number does not overflow its integer type',
               'after an error has been reported for a literal, its value is not used (no program with a lexical error is run: P01)']

WS = b' \t\n\x0c\r'
DIGIT = b'0123456789'
START = bytes(range(97, 123)) + bytes(range(65, 91)) + b'_'
WORDCH = START + DIGIT
ESC = {ord('n'): 10, ord('t'): 9, ord('0'): 0, ord('\\'): 92}
STR_ESC = dict(ESC, **{}); STR_ESC.update({34: 34, 39: 39})
SQ_ESC = dict(ESC); SQ_ESC.update({39: 39})
DQ_ESC = dict(ESC); DQ_ESC.update({34: 34, 36: 36})
UW_ESC = dict(ESC); UW_ESC.update({c: c for c in b'#\'"><?;$=' + WS})
UW_STOP = b'#\'"><?;$=}' + WS
op = lambda x: ('Operator', (x,))
SINGLE = {'-': op('Minus'), '*': op('Times'), '/': op('Div'), '%': op('Mod'), '.': op('Dot'), '?': op('Try'), ':': ('Colon',), ',': ('Comma',), '(': ('OpenParens',), ')': ('CloseParens',),
          '[': ('OpenBracket',), ']': ('CloseBracket',), '{': ('Command',)}
SINGLE = {ord(k): v for k, v in SINGLE.items()}
# first: (second, token of both, token of the first alone or None)
DOUBLE = {'>': ('=', op('GreaterEquals'), op('Greater')), '<': ('=', op('LowerEquals'), op('Lower')), '+': ('+', op('Concat'), op('Plus')), '=': ('=', op('Equals'), op('Assign')),
          '!': ('=', op('NotEquals'), None), '@': ('[', ('OpenDict',), None), '$': ('{', ('CaptureCommand',), None), '&': ('{', ('AsyncCommand',), None)}
DOUBLE = {ord(k): (ord(v[0]), v[1], v[2]) for k, v in DOUBLE.items()}
T, F = ('k', 1), ('k', 0)
CDOUBLE = {62: (62, ('CmdOperator', ('Output', T)), ('CmdOperator', ('Output', F))), 60: (60, ('CmdOperator', ('Input', T)), ('CmdOperator', ('Input', F)))}
CSINGLE = {ord('?'): ('CmdOperator', ('Try',)), ord('|'): ('Pipe',), ord(';'): ('Semicolon',)}
WORDS = {'let': 'Let', 'if': 'If', 'then': 'Then', 'else': 'Else', 'elseif': 'ElseIf', 'end': 'End', 'for': 'For', 'in': 'In', 'do': 'Do', 'while': 'While', 'function': 'Function', 'return': 'Return',
         'break': 'Break', 'self': 'Self_'}
WORDS = {k: ('Keyword', (v,)) for k, v in WORDS.items()}
WORDS.update({'nil': ('Literal', ('Nil',)), 'true': ('Literal', ('True',)), 'false': ('Literal', ('False',)), 'not': op('Not'), 'and': op('And'), 'or': op('Or')})

OFF, POS, ANY = ('OFF',), ('POS',), ('any',)
FWD, STAY, BACK = 'forward', 'stay', 'back'

def vec(*xs): return ('vec',) + xs
def push(v, x): return v + (x,)

class Out:
    """one outcome of the reference automaton"""
    def __init__(s, q, v, move=FWD, out=None, when=None):
        s.q = q; s.v = v; s.move = move; s.out = out; s.when = when

def tok(kind, pos): return ('tok', kind, pos)
def err(kind, pos): return ('err', kind, pos)
def keep(v, *names): return {n: v[n] for n in names}

def ref(q, v, b):
    """outcomes of the reference automaton in state q with variables v on byte b (None: end of input)"""
    n = q[0]
    if n == 'root':
        if b is None: return [Out(q, {}, STAY)]
        if b in WS: return [Out(q, {})]
        if b == 35: return [Out(('comment',), {})]
        if b == 34: return [Out(('string',), dict(pos=POS, buf=vec()))]
        if b == 39: return [Out(('byte', 0), dict(pos=POS))]
        if b in DIGIT: return [Out(('number', None, None), dict(pos=POS, off=OFF))]
        if b in START: return [Out(('word',), dict(pos=POS, off=OFF))]
        if b in SINGLE: return [Out(('command',) if b == 123 else q, {}, out=tok(SINGLE[b], POS))]
        if b in DOUBLE: return [Out(('symbol', b), dict(pos=POS))]
        return [Out(q, {}, out=err(('Unexpected', ('k', b)), POS))]
    if n == 'comment' or n == 'ccomment':
        if b is None: return [Out(q, {}, STAY)]
        if b == 10: return [Out(('root',) if n == 'comment' else ('command',), {})]
        return [Out(q, {})]
    if n == 'string':
        if b is None: return [Out(('root',), {}, STAY, err(('UnexpectedEof',), POS))]
        if b == 92: return [Out(('string\\',), dict(v, eoff=OFF, epos=POS))]
        if b == 34: return [Out(('root',), {}, out=tok(('Literal', ('String', v['buf'])), v['pos']))]
        return [Out(q, dict(v, buf=push(v['buf'], ('k', b))))]
    if n == 'string\\':
        w = keep(v, 'pos', 'buf')
        if b is None: return [Out(('root',), {}, STAY, err(('UnexpectedEof',), POS))]
        if b in STR_ESC: return [Out(('string',), dict(w, buf=push(v['buf'], ('k', STR_ESC[b]))))]
        return [Out(('string',), w, out=err(('InvalidEscapeSequence', vec(('bytes', v['eoff'], ('succ', OFF)))), v['epos']))]
    if n == 'byte':
        if b is None: return [Out(('root',), {}, STAY, err(('UnexpectedEof',), POS))]
        if q[1] == 1:
            if b == 39: return [Out(('root',), {}, out=tok(('Literal', ('Byte', v['val'])), v['pos']))]
            return [Out(q, dict(v, val=ANY), out=err(('Unexpected', ('k', b)), POS))]
        if b == 92: return [Out(('byte\\',), dict(v, eoff=OFF, epos=POS))]
        if b == 39: return [Out(('root',), {}, out=err(('EmptyByteLiteral',), v['pos']))]
        return [Out(('byte', 1), dict(v, val=('k', b)))]
    if n == 'byte\\':
        w = keep(v, 'pos')
        if b is None: return [Out(('root',), {}, STAY, err(('UnexpectedEof',), POS))]
        if b in STR_ESC: return [Out(('byte', 1), dict(w, val=('k', STR_ESC[b])))]
        return [Out(('byte', 1), dict(w, val=ANY), out=err(('InvalidEscapeSequence', vec(('bytes', v['eoff'], ('succ', OFF)))), v['epos']))]
    if n == 'number':
        d, e = q[1], q[2]
        if b == 46 and d is None and e is None: return [Out(('number', False, None), v)]
        if b in (69, 101) and e is None and b is not None: return [Out(('number', d, False), v)]
        if b is not None and b in DIGIT: return [Out(('number', None if d is None else True, None if e is None else True), v)]
        if d is False or e is False:
            return [Out(('root',), {}, STAY if b is None else FWD, err(('UnexpectedEof',) if b is None else ('Unexpected', ('k', b)), v['pos']))]
        ty, lit = ('i64', 'Int') if d is None and e is None else ('f64', 'Float')
        s = ('bytes', v['off'], OFF)
        return [Out(('root',), {}, STAY, tok(('Literal', (lit, ('parse', ty) + s[1:])), v['pos']), ('parse', True)),
                Out(('root',), {}, STAY if b is None else FWD, err(('InvalidNumber', vec(s)), v['pos']), ('parse', False))]
    if n == 'word':
        if b is not None and b in WORDCH: return [Out(q, v)]
        return [Out(('root',), {}, STAY, tok(('word', v['off'], OFF), v['pos']))]
    if n == 'symbol':
        snd, both, one = DOUBLE[q[1]]
        if b == snd: return [Out(('command',) if b == 123 else ('root',), {}, out=tok(both, v['pos']))]
        if one: return [Out(('root',), {}, STAY, tok(one, v['pos']))]
        return [Out(('root',), {}, STAY, err(('Unexpected', ('k', q[1])), v['pos']))]
    if n == 'command':
        if b is None: return [Out(('root',), {}, STAY, err(('UnexpectedEof',), POS))]
        if b in WS: return [Out(q, {})]
        if b == 35: return [Out(('ccomment',), {})]
        if b == 125: return [Out(('root',), {}, out=tok(('CloseCommand',), POS))]
        if b in CSINGLE: return [Out(q, {}, out=tok(CSINGLE[b], POS))]
        if b in CDOUBLE: return [Out(('csymbol', b), dict(pos=POS))]
        return ref(('arg', True), dict(pos=POS, parts=vec()), b)
    if n == 'csymbol':
        snd, both, one = CDOUBLE[q[1]]
        if b == snd: return [Out(('command',), {}, out=tok(both, v['pos']))]
        return [Out(('command',), {}, STAY, tok(one, v['pos']))]
    # ---- arguments ---------------------------------------------------------------------------
    if b is None and n not in ('arg',): return None      # the block is not closed: the parser reports it (P16)
    if n == 'arg':
        w = keep(v, 'pos', 'parts')
        if b == 36: return [Out(('$', False, None, False), dict(w, dpos=POS))]
        if b == 39: return [Out(('sq',), dict(w, buf=vec()))]
        if b == 34: return [Out(('dq',), dict(w, units=vec()))]
        if b == 61: return [Out(('arg', False), dict(w, parts=push(v['parts'], ('EnvAssign',))))]
        if b in (42, 37): return [Out(('arg', False), dict(w, parts=push(v['parts'], ('Expansion', ('Star',) if b == 42 else ('Percent',)))))]
        if b == 126 and q[1]: return [Out(('~',), dict(w, coff=OFF, cpos=POS))]
        if b is not None and b not in UW_STOP: return ref(('uw',), dict(w, buf=vec()), b)
        return [Out(('command',), {}, STAY, tok(('Argument', v['parts']), v['pos']))]
    if n == '~':
        w = keep(v, 'pos', 'parts')
        if b == 47: return [Out(('arg', False), dict(w, parts=push(v['parts'], ('Expansion', ('Home',)))))]
        return [Out(('uw',), dict(w, buf=vec()), (BACK, v['coff'], v['cpos']))]
    if n == 'uw':
        w = keep(v, 'pos', 'parts')
        done = push(v['parts'], ('Unquoted', ('Literal', v['buf'])))
        if b == 92: return [Out(('uw\\',), dict(v, eoff=OFF, epos=POS))]
        if b in (42, 37): return [Out(('arg', False), dict(w, parts=push(done, ('Expansion', ('Star',) if b == 42 else ('Percent',)))))]
        if b in (91, 123): return None
        if b not in UW_STOP: return [Out(q, dict(v, buf=push(v['buf'], ('k', b))))]
        return ref(('arg', False), dict(w, parts=done), b)
    if n == 'sq':
        if b == 39: return [Out(('arg', False), dict(keep(v, 'pos'), parts=push(v['parts'], ('SingleQuoted', v['buf']))))]
        if b == 92: return [Out(('sq\\',), dict(v, eoff=OFF, epos=POS))]
        return [Out(q, dict(v, buf=push(v['buf'], ('k', b))))]
    if n == 'dq':
        if b == 34: return [Out(('arg', False), dict(keep(v, 'pos'), parts=push(v['parts'], ('DoubleQuoted', v['units']))))]
        if b == 36: return [Out(('q$', False, None, False), dict(v, dpos=POS))]
        return ref(('dw',), dict(v, buf=vec()), b)
    if n == 'dw':
        w = keep(v, 'pos', 'parts', 'units')
        if b in (34, 36): return ref(('dq',), dict(w, units=push(v['units'], ('Literal', v['buf']))), b)
        if b == 92: return [Out(('dw\\',), dict(v, eoff=OFF, epos=POS))]
        return [Out(q, dict(v, buf=push(v['buf'], ('k', b))))]
    if n in ('uw\\', 'sq\\', 'dw\\'):
        w = {k: x for k, x in v.items() if k not in ('eoff', 'epos')}
        t = {'uw\\': UW_ESC, 'sq\\': SQ_ESC, 'dw\\': DQ_ESC}[n]
        if b in t: return [Out((n[:2],), dict(w, buf=push(v['buf'], ('k', t[b]))))]
        return [Out((n[:2],), w, out=err(('InvalidEscapeSequence', vec(('bytes', v['eoff'], ('succ', OFF)))), v['epos']))]
    if n in ('$', 'q$'):
        some, braces, bad = q[1:]
        w = {k: x for k, x in v.items() if k not in ('doff', 'dpos')}
        back = ('arg', False) if n == '$' else ('dq',)
        def name(take):
            s = ('bytes', v['doff'] if some else OFF, OFF)
            e = err(('InvalidIdentifier', vec(s)), v['dpos'])
            if not some or bad: return [Out(back, w, out=e)]
            unit = ('Dollar', ('symbol',) + s[1:], v['dpos'])
            w2 = dict(w, parts=push(w['parts'], ('Unquoted', unit))) if n == '$' else dict(w, units=push(w['units'], unit))
            ok = [Out(back, w2, when=('ident', True))] if take else ref(back, w2, b)
            r = []
            for o in ok or []: o.when = ('ident', True); r.append(o)
            r.append(Out(back, w, FWD if take else STAY, e, ('ident', False)))
            return r if ok is not None else None
        if not some and braces is None and b == 123: return [Out((n, False, True, bad), v)]
        if braces and b == 125: return name(True)
        if not some: return [Out((n, True, bool(braces), b not in START), dict(v, doff=OFF))]
        if not braces:
            if b in WORDCH: return [Out(q, v)]
            return name(False)
        return [Out((n, some, braces, bad or b not in WORDCH), v)]
    raise AssertionError(q)

# ---- comparing ---------------------------------------------------------------------------------------
class Conv:
    """canonical form of a value of the scanner"""
    def __init__(s, M, st, byte):
        s.M = M; s.I = M.I; s.st = st; s.byte = byte
    def term(s, t):
        M, I = s.M, s.I
        k = I.T.t[t]
        if t == M.OFF: return OFF
        if t == M.POS: return POS
        if t == M.BYTE or t == M.BYTE2: return ('k', s.byte)
        h = k[0]
        if h == 'V': return ('V', k[1])
        if h == 'k': return ('k', k[1][1])
        if h == 'succ': return ('succ', s.term(k[1]))
        if h == 'Add' and I.T.t[k[2]] == ('k', ('n', 1)): return ('succ', s.term(k[1]))
        if h == 'bytes_of': return ('bytes',) + s.slice(k[1])
        if h == 'slice': return ('bytes',) + s.slice(t)
        if h == 'word': return ('word',) + s.slice(k[1])
        if h == 'parse': return ('parse', k[1]) + s.slice(k[2])
        if h == 'f' and I.T.t[k[1]][0] == 'd' and I.T.t[I.T.t[k[1]][1]][0] == 'word': return ('symbol',) + s.slice(I.T.t[I.T.t[k[1]][1]][1])
        if h in ('&', '*'): return s.term(k[1])
        return ('t', t)
    def slice(s, t):
        k = s.I.T.t[t]
        return (s.term(k[1]), s.term(k[2])) if k[0] == 'slice' else (('t', t),)
    def val(s, v):
        I = s.I
        h = v[0]
        if h == 's': return s.term(v[1])
        if h == 'k': return ('k', v[1])
        if h == 'r': return s.val(I.read(s.st, v[1], v[2]))
        if h == 'b': return vec(*[('k', x) for x in v[1]])
        if h == 'a':
            if v[2] in ('vec', 'array', 'list'): return vec(*[s.val(x) for x in v[3]])
            t = I.types[v[1]] if v[1] is not None else {'k': 'tuple'}
            if t['k'] == 'enum': return (t['v'][v[2]]['n'],) + tuple(s.val(x) for x in v[3])
            if len(v[3]) == 1 and isinstance(v[2], str): return s.val(v[3][0])
            return ('struct',) + tuple(s.val(x) for x in v[3])
        return ('t', str(v))

def same(a, b):
    """a: canonical value of the code, b: of the reference"""
    if b == ANY or a == b: return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return all(same(x, y) for x, y in zip(a, b))
    return False

def text(x):
    if isinstance(x, tuple):
        if x and x[0] == 'k' and len(x) == 2 and isinstance(x[1], int): return repr(chr(x[1])) if 32 <= x[1] < 127 else str(x[1])
        if len(x) == 1: return str(x[0])
        return '%s(%s)' % (text(x[0]), ', '.join(text(y) for y in x[1:]))
    return str(x)

def bname(b): return 'the end of input' if b is None else repr(chr(b)) if 32 <= b < 127 else '0x%02x' % b
def qname(q): return ' '.join(str(x) for x in q)

def check(P, R, tier):
    interner.check(P, R)
    M = Machine(P)
    I = M.I
    init = initial(P, M)
    if init is None: R.bad('initial', 'the initial state and position of the scanner were not found'); return
    words(P, M, R)
    todo = [(('root',), (), init)]
    seen = {(('root',), (), canon_state(M, init))}
    stays = {}          # (pair key, byte) -> pair key it stays at
    names = {}
    while todo:
        if len(R.violations) > 14: R.notes.append('stopped after %d violations' % len(R.violations)); break
        q, vs, state = todo.pop(0)
        key = (q, vs, canon_state(M, state))
        names[key] = q
        v = {n: sym_of(n, r) for n, r in vs}
        for b in [None] + list(range(256)):
            outs = M.step(state, b)
            exp = ref(q, v, b)
            R.count('steps')
            if exp is None and b is not None:
                # a construct without lexical rules here ('[' and '{' in an unquoted argument)
                for o in outs:
                    if o[0] not in ('return', 'suspend'): R.bad('expansion:%s' % bname(b), 'scanning %s in an unquoted argument panics (not yet implemented) instead of reporting an error or taking it literally' % bname(b))
                continue
            if not outs: R.bad('noresult:%s:%s' % (qname(q), bname(b)), 'scanning %s in state %s has no outcome' % (bname(b), qname(q))); continue
            used = set()
            for o in outs:
                if o[0] == 'return' and is_some(I, o[4]) is None: R.bad('unclear:%s' % qname(q), 'the result of scanning %s in state %s was not determined' % (bname(b), qname(q))); continue
                r, msg = match(M, o, exp, b, R, q)
                if msg:
                    R.bad('step:%s:%s' % (qname(q), msg[0]), 'scanning %s in state %s%s: %s' % (bname(b), qname(q), '' if not vs else '', msg[1])); continue
                if r is None: continue
                used.add(r[0])
                e, post, newvs = r[1:]
                k2 = (e.q, newvs, canon_state(M, post))
                if e.move == STAY and (b is not None or e.out): stays.setdefault((key, b), set()).add(k2)
                if k2 not in seen:
                    if len(seen) > 800: R.bad('states', 'the states of the scanner are not finitely many'); return
                    seen.add(k2); todo.append((e.q, newvs, post))
            if exp is not None:
                for i in range(len(exp)):
                    if i not in used and outs and all(o[0] in ('return', 'suspend') for o in outs):
                        R.bad('missing:%s:%d' % (qname(q), i), 'scanning %s in state %s never has the outcome %s' % (bname(b), qname(q), text(exp[i].out) if exp[i].out else qname(exp[i].q)))
    # progress: no cycle of steps that stay where they are
    for (k, b), nx in sorted(stays.items(), key=str):
        seen2, work = set(), list(nx)
        while work:
            x = work.pop()
            if x == k: R.bad('cycle:%s' % qname(k[0]), 'scanning %s in state %s never gets on' % (bname(b), qname(k[0]))); break
            if x in seen2: continue
            seen2.add(x)
            work.extend(stays.get((x, b), ()))
    R.count('pairs', len(seen)); R.count('states', len({k[0] for k in seen}))
    R.count('functions', len(I.stats['fns']))
    R.floor('pairs', 40); R.floor('states', 40); R.floor('steps', 9000); R.floor('words', 20)

def sym_of(n, r):
    """a variable of the reference automaton at the start of a step, named after its representative"""
    if r == 'any': return ANY
    if r == 'empty': return vec()
    if n in ('buf', 'parts', 'units'): return vec(('V', r))
    return ('V', r)

def is_some(I, v):
    if v is None: return None
    if v[0] == 'a' and I.types[v[1]]['k'] == 'enum': return v[2] == 1
    return None

def canon_state(M, v):
    return Conv(M, None, None).val(v)

def initial(P, M):
    """the state a new scanner starts in, and its position at the start of the source"""
    T = P.types
    for f in P.fns:
        if not f.get('local') or f['locals'][0] != M.auto: continue
        I = Interp(P)
        args = [I.sym(f['locals'][i + 1], 'arg', ('n', i)) for i in range(f['args'])]
        for s in I.run(f, args):
            if s.end != 'return': continue
            v = s.ret
            if v[0] == 'a':
                st = v[3][M.f_state]
                if st[0] == 'a': return reintern(I, M.I, st)
    return None

def reintern(I, J, v):
    if v[0] == 'a': return ('a', v[1], v[2], tuple(reintern(I, J, x) for x in v[3]))
    if v[0] == 'k': return v
    return ('s', J.mk('initial', str(v)), v[2] if len(v) > 2 and isinstance(v[2], int) else J.unit_ti)

def output(M, cv, o):
    """canonical output of a finished step"""
    I = M.I
    v = o[4]
    r = v[3][0]
    if r[0] != 'a' or I.types[r[1]]['k'] != 'enum': return ('t', 'unknown')
    body = r[3][0]
    if body[0] != 'a' or I.types[body[1]]['k'] != 'struct': return ('t', cv.val(body))
    fs = I.types[body[1]]['v'][0]['f']
    kind = pos = None
    for (n, t), x in zip(fs, body[3]):
        if I.types[t]['s'].endswith('SourcePos'): pos = position(M, cv, x)
        else: kind = cv.val(x)
    return ('tok' if r[2] == 0 else 'err', kind, pos)

def position(M, cv, v):
    x = cv.val(v)
    return whole(x)

def whole(x):
    """a position put together from all parts of one position is that position"""
    return x

def moved(M, cv, o):
    """how the cursor moved: 'stay', 'forward', or the offset it went back to; with an error text when position and offset disagree"""
    I = M.I
    off = cv.val(o[2]); pos = o[3]
    p = cv.val(pos)
    if off == OFF:
        return (STAY, None) if p == POS else ('?', 'the position changes without moving')
    if off == ('succ', OFF):
        names = [n for n, t in I.types[M.pos_ti]['v'][0]['f']]
        base = {n: I.mk('f', M.POS, ('n', i)) for i, n in enumerate(names)}
        if p[0] != 'struct': return ('?', 'the position is not advanced')
        got = dict(zip(names, p[1:]))
        for n in names:
            old = ('t', base[n])
            if n == 'line': want = ('succ', old) if cv.byte == 10 else old
            elif n == 'column': want = ('k', 0) if cv.byte == 10 else ('succ', old)
            else: want = old
            if got[n] != want: return ('?', 'the %s of the position is not advanced as it should be' % n)
        return (FWD, None)
    return (('back', off, p), None)

def match(M, o, exp, b, R, q):
    """-> ((index, outcome, abstracted post state, variables), None) or (None, (key, message)) or (None, None)"""
    I = M.I
    st = o[5]
    cv = Conv(M, st, b)
    if o[0] not in ('return', 'suspend'):
        ev = [e for e in st.events() if e[0] == 'rpanic']
        return None, ('panic', 'it panics%s' % (' in %s' % ev[-1][2] if ev else ''))
    R.count('outcomes')
    out = output(M, cv, o) if o[0] == 'return' and is_some(I, o[4]) else None
    if exp is None:
        # end of input inside a block that is not closed: no token may come out of it, the parser reports the missing end
        if out is not None and out[0] == 'tok' and out[1][0] != 'Argument': return None, ('eof', 'a token %s comes out of an unfinished argument' % text(out[1]))
        return None, None
    mv, m = moved(M, cv, o)
    if m: return None, ('position', m)
    if b is not None and o[0] == 'return' and out is None: return None, ('end', 'the scanner ends before the end of input')
    if b is None and mv == FWD: return None, ('eof', 'it moves past the end of input')
    if b is None and o[0] == 'suspend': return None, ('eof', 'it does not stop at the end of input')
    # which alternative
    cond = None
    if 'parse' in st.user: cond = ('parse', st.user['parse'])
    else:
        for t, val in st.facts.items():
            k = I.T.t[t]
            if k[0] == 'disc' and I.T.t[k[1]][0] == 'word':
                cond = ('ident', I.types[k[2][1]]['v'][[int(x['d']) for x in I.types[k[2][1]]['v']].index(val)]['n'] == 'Identifier')
        if cond is None:
            for t, ex in st.nots.items():
                k = I.T.t[t]
                if k[0] == 'disc' and I.T.t[k[1]][0] == 'word' and any(I.types[k[2][1]]['v'][i]['n'] == 'Identifier' for i in range(len(I.types[k[2][1]]['v'])) if int(I.types[k[2][1]]['v'][i]['d']) in ex): cond = ('ident', False)
    alts = [(i, e) for i, e in enumerate(exp) if e.when is None or cond is None or e.when == cond]
    if not alts: return None, ('case', 'this case is not foreseen')
    msg = None
    for i, e in alts:
        if not (out is None and e.out is None or out is not None and e.out is not None and same(out, e.out)):
            msg = ('output', 'it gives %s where %s is due' % (text(out) if out else 'nothing', text(e.out) if e.out else 'nothing')); continue
        want = e.move
        if isinstance(want, tuple): ok = mv[0] == BACK and same(mv[1], want[1]) and same(mv[2], want[2])
        else: ok = mv == want
        if not ok: msg = ('move', 'the position moves %s instead of %s' % (text(mv), text(want))); continue
        post, newvs = abstract(M, cv, o[1], e.v)
        return (i, e, post, newvs), None
    return None, msg

def abstract(M, cv, state, v):
    """replace what corresponds to a variable of the reference by a symbol for it; equal variables share one"""
    reps, vs = {}, []
    for n in sorted(v):
        x = v[n]
        if x == ANY: vs.append((n, 'any')); continue
        if x == vec(): vs.append((n, 'empty')); continue
        k = (kind_of(n), x)
        reps.setdefault(k, n)
        vs.append((n, reps[k]))
    I = M.I
    def go(x, path, ti):
        c = cv.val(x)
        if x[0] == 'a' and x[2] == 'vec':
            for (kd, t), n in reps.items():
                if kd in ('buf', 'parts', 'units') and c == t and n_fits(I, x[1], n): return ('a', x[1], 'vec', (('s', I.mk('V', n), M.u8),))
        elif x[0] == 's':
            for (kd, t), n in reps.items():
                if kd not in ('buf', 'parts', 'units') and c == t: return ('s', I.mk('V', n), x[2])
            if c[0] == 'k': return ('k', c[1], x[2])
            if c[0] == 'V': return ('s', I.mk('V', 'x' + c[1] if not c[1].startswith('x') else c[1]), x[2])
            return ('s', I.mk('V', 'x' + '.'.join(map(str, path))), x[2])
        elif x[0] == 'k':
            for (kd, t), n in reps.items():
                if kd == 'val' and c == t and I.types[x[2]]['s'] == 'u8': return ('s', I.mk('V', n), x[2])
            return x
        elif x[0] == 'a' and c != ('struct',):
            for (kd, t), n in reps.items():
                if kd == 'pos' and c == t: return ('s', I.mk('V', n), x[1])
        if x[0] == 'r': return go(I.read(cv.st, x[1], x[2]), path, ti)
        if x[0] == 'a': return ('a', x[1], x[2], tuple(go(y, path + (i,), None) for i, y in enumerate(x[3])))
        return x
    return go(state, (), None), tuple(vs)

def kind_of(n):
    return n if n in ('buf', 'parts', 'units') else 'val' if n == 'val' else 'off' if n.endswith('off') else 'pos'

def n_fits(I, ti, n):
    e = I.types[ti]['s']
    return {'buf': 'u8', 'parts': 'ArgPart', 'units': 'ArgUnit'}[n] in e

def words(P, M, R):
    """the word table: the reserved words, whole words only, and everything else an identifier"""
    T = P.types
    if not M.words: R.bad('words', 'the function that turns a word into a token was not found'); return
    for fid in M.words:
        f = P.fns[fid]
        for w, want in list(WORDS.items()) + [(x, None) for x in OTHERS]:
            I = Interp(P, hooks=[slice_eq], max_visits=60, opaque=interns)
            I.word = w.encode()
            def setup(st):
                fr = st.frames[-1]
                for i in range(1, f['args'] + 1):
                    t = f['locals'][i]
                    if T[t]['s'] == '&[u8]':
                        o = I.alloc(st, ('a', T[t]['to'], 'array', tuple(('k', x, P.ty_by_s['u8']) for x in w.encode())))
                        st.mem[(fr.uid, i)] = ('r', o, ())
                    elif T[t]['k'] == 'ref': st.mem[(fr.uid, i)] = ('r', I.alloc(st, I.sym(T[t]['to'], 'arg', ('n', i))), ())
                    else: st.mem[(fr.uid, i)] = I.sym(t, 'arg', ('n', i))
            res = I.run(f, [None] * f['args'], setup)
            R.count('words')
            got = set()
            for s in res:
                if s.end != 'return': got.add('panic'); continue
                got.add(wv(I, s, s.ret))
            if want is None:
                if len(got) != 1 or list(got)[0][0] != 'Identifier': R.bad('word:%s' % w, 'the word %s, which is not reserved, becomes %s' % (w, ', '.join(sorted(map(text, got)))))
            elif got != {want}: R.bad('word:%s' % w, 'the reserved word %s becomes %s instead of %s' % (w, ', '.join(sorted(map(text, got))) or 'nothing', text(want)))
        all_words(P, M, R, f)

def wv(I, st, v):
    if v[0] == 'a' and I.types[v[1]]['k'] == 'enum':
        n = I.types[v[1]]['v'][v[2]]['n']
        if n == 'Identifier': return ('Identifier',)
        return (n,) + tuple(wv(I, st, x) for x in v[3])
    return ('?',)

OTHERS = ['lets', 'le', 'Let', 'x', 'selfish', 'els', 'elseifs', 'functio', 'functions', 'nils', 'ands', 'android', 'o', 'no', 'nota', '_', '_let', 'let_', 'enD', 'trues', 'returns', 'std', 'i']

def cont(I, st, v):
    """the bytes a value refers to: bytes, or the term of an unknown slice"""
    for _ in range(6):
        if v[0] in ('b', 'bytes'): return bytes(v[1])
        if v[0] == 'r': v = I.read(st, v[1], v[2]); continue
        if v[0] == 'a' and v[2] in ('vec', 'array'):
            xs = [I.norm(st, x) for x in v[3]]
            return bytes(x[1] for x in xs) if all(x[0] == 'k' for x in xs) else None
        if v[0] == 'a' and len(v[3]) == 1: v = v[3][0]; continue
        if v[0] == 's':
            t = v[1]
            while I.T.t[t][0] in ('&', '*'): t = I.T.t[t][1]
            return t
        return None

def interns(g):
    return g['n'].startswith('symbol::') or '<symbol::' in g['n']

def slice_eq(I, st, c):
    if c.m == 'from_utf8' and len(c.args) == 1 and c.dti is not None and I.types[c.dti]['k'] == 'enum':
        a = cont(I, st, c.args[0])
        er = ('a', c.dti, 1, (I.sym(I.types[c.dti]['v'][1]['f'][0][1], 'utf8'),))
        if isinstance(a, bytes): return [(st, ('a', c.dti, 0, (c.args[0],)))]
        if isinstance(a, int) and I.T.t[a] == ('W',): return [(st, ('a', c.dti, 0, (c.args[0],))), (st.copy(), er)]
    if c.m in ('eq', 'ne') and len(c.args) == 2:
        a, b = cont(I, st, c.args[0]), cont(I, st, c.args[1])
        if isinstance(a, bytes) and isinstance(b, bytes): return [(st, I.boolv((a == b) == (c.m == 'eq')))]
        if isinstance(b, int): a, b = b, a
        if isinstance(a, int) and isinstance(b, bytes) and I.T.t[a] == ('W',):
            s2 = st.copy()
            st.user = dict(st.user, word=b)
            return [(st, I.boolv(c.m == 'eq')), (s2, I.boolv(c.m != 'eq'))]
    return None

def all_words(P, M, R, f):
    """over an unknown word: every path to a reserved token has compared the whole word"""
    T = P.types
    I = Interp(P, hooks=[slice_eq], max_visits=200, max_paths=20000, opaque=interns)
    def setup(st):
        fr = st.frames[-1]
        for i in range(1, f['args'] + 1):
            t = f['locals'][i]
            if T[t]['s'] == '&[u8]': st.mem[(fr.uid, i)] = ('r', I.alloc(st, I.sym(T[t]['to'], 'W')), ())
            elif T[t]['k'] == 'ref': st.mem[(fr.uid, i)] = ('r', I.alloc(st, I.sym(T[t]['to'], 'arg', ('n', i))), ())
            else: st.mem[(fr.uid, i)] = I.sym(t, 'arg', ('n', i))
    W = I.mk('W')
    for s in I.run(f, [None] * f['args'], setup):
        R.count('word_paths')
        if s.end != 'return': continue
        k = wv(I, s, s.ret)
        if k == ('Identifier',): continue
        word = s.user.get('word')
        if word is None:
            n = s.facts.get(I.mk('len', W))
            bs = None if n is None or n > 64 else [s.facts.get(I.mk('ci', W, ('n', i), ('n', 0)), s.facts.get(I.mk('x', W, I.mk('k', ('n', i))))) for i in range(n)]
            word = bytes(bs) if bs is not None and all(x is not None for x in bs) else None
        if word is None: R.bad('prefix', 'words that were not compared in full become %s' % text(k)); continue
        if WORDS.get(word.decode('latin1')) != k: R.bad('word:%s' % word.decode('latin1'), 'the word %s becomes %s' % (word.decode('latin1'), text(k)))
    R.floor('word_paths', 21)
