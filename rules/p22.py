"""An asynchronous block is joined at most once."""
from world import *
import p18

TECHNIQUE = 'path-sensitive dataflow of asynchronous blocks and of every sequence of joins of their handle, with a model of threads and processes'
RULE = ('The evaluator is followed on explicit asynchronous blocks, with every system call succeeding or failing on paths of its own, and from every resulting state the join function found in the resulting value is '
        'called three times. Outside the one thread it begins, evaluating the block starts, waits for and reads nothing; the first call of join joins exactly that thread once and yields what its execution '
        'yielded: the errors of its failing commands, nil, or its panic; every later call raises the panic for a repeated join and does nothing else.')
ASSUMPTIONS = ['blocks of up to 2 commands (longer ones run the same loops)', 'JoinHandle::join waits for the thread and yields its result', 'a thread is followed as if it ran when it is begun: it shares nothing with the rest but what it was given']

def native_of(P, W, I, st, v):
    """(call function, self reference) of a native function value"""
    v = I.norm(st, v)
    seen = 0
    stack = [(v, None)]
    while stack and seen < 200:
        x, ref = stack.pop(); seen += 1
        if x[0] == 'r': stack.append((I.read(st, x[1], x[2]), x)); continue
        if x[0] == 'a' and x[1] is not None:
            for g in P.fns:
                if g.get('local') and g.get('m') == 'call' and (g.get('trait') or '').endswith('NativeFun') and g['kind'] == 'item' and g['args'] == 2:
                    t = P.types[g['locals'][1]]
                    if t['k'] == 'ref' and t['to'] == x[1] and ref is not None: return g, ref
            stack += [(y, None) for y in x[3]]
    return None, None

def call(P, W, I, st, g, ref, n):
    s = st.copy(); s.end = None; s.ret = None; s.frames = []
    fr = I.new_frame(s, g, None, None)
    cti = g['locals'][2]
    ctx = ('a', cti, 0, tuple(('s', I.mk('ctx', nm, ('n', n)), fti) for nm, fti in P.types[cti]['v'][0]['f']))
    s.mem[(fr.uid, 1)] = ref; s.mem[(fr.uid, 2)] = ctx
    s.frames.append(fr)
    return I.run_states([s])

def check(P, R, tier):
    W = World(P)
    cases = [([1], [{}]), ([2], [{}, {}]), ([1, 1], [{}, {}]), ([1, 1], [{'abort': False}, {}]), ([2], [{'abort': False}, {}])]
    if tier == 'thorough': cases += [([3], [{}, {'abort': False}, {}]), ([1, 2], [{}, {}, {}]), ([2, 1], [{'abort': False}, {'abort': False}, {}])]
    for shape, cs in cases: one(P, W, R, shape, cs, False)
    one(P, W, R, [1], [{'redirs': [('>', 7, 'file')]}], True)
    one(P, W, R, [1, 1], [{}, {'redirs': [('>', 7, 'file')]}], True)
    R.floor('blocks', 7); R.floor('block_paths', 60); R.floor('first_joins', 60); R.floor('later_joins', 100); R.floor('panics', 2)

def one(P, W, R, shape, cs, panics):
    it = iter(cs)
    nofail = () if sum(shape) < 3 else ('dup', 'pipe')
    I, res = W.run('Asynchronous', [[next(it) for _ in range(n)] for n in shape], outcomes=('zero', 'code', 'signal') if sum(shape) < 2 else ('zero', 'code'), nofail=nofail)
    flags = [c.get('abort', True) for c in cs]
    R.count('blocks')
    names = [['c%d%d' % (i, j) for j in range(n)] for i, n in enumerate(shape)]
    it = iter(cs)
    label = '&{ %s }' % '; '.join(' | '.join(x + ('' if next(it).get('abort', True) else ' ?') for x in p) for p in names)
    for st in res:
        R.count('block_paths')
        def bad(k, m): R.bad(k, 'the asynchronous block %s %s, when: %s' % (label, m, story(I, st)))
        if st.end == 'cut': bad('cut', 'is executed by code that cannot be followed'); continue
        evs = os_events(st)
        depth = 0; threads = []
        for e in evs:
            if e[0] == 'thread':
                if not depth: threads.append(e[1])
                depth += 1
            elif e[0] == 'thread-end': depth -= 1
            elif not depth and e[0] in ('spawn', 'nospawn', 'wait', 'read', 'write', 'join', 'execve', 'chdir'):
                bad('blocking:' + e[0], 'does not return at once: %s in the evaluating thread' % e[0]); break
        if st.end != 'return': bad('end', 'makes the interpreter crash'); continue
        if st.ret[0] != 'a' or st.ret[2] != 0: bad('panic', 'raises a panic'); continue
        if len(threads) != 1: bad('threads', 'is executed in %d threads' % len(threads)); continue
        v = I.norm(st, st.ret[3][0])
        d = decode(W, I, st, v)
        if d is None or d[0] != 'dict' or set(d[1]) != {'join'}: bad('value', 'does not yield a dictionary with join alone'); continue
        f = content(I, st, v[3][0])[3][0][3][1]
        g, ref = native_of(P, W, I, st, f)
        if g is None: bad('value', 'yields a join which is no native function'); continue
        cur = [st]
        for n in range(3):
            nxt = []
            for s0 in cur:
                k0 = len(os_events(s0))
                for s in call(P, W, I, s0, g, ref, n):
                    def bad2(k, m): R.bad(k, 'the %s join of the asynchronous block %s %s, when: %s' % (('first', 'second', 'third')[n], label, m, story(I, s)))
                    if s.end == 'infeasible': continue
                    new = os_events(s)[k0:]
                    js = [e for e in new if e[0] == 'join']
                    rest = [e for e in new if e[0] not in ('join', 'drop')]
                    if s.end == 'cut': bad2('cut', 'runs code that cannot be followed'); continue
                    if rest: bad2('side', 'does more than join: %s' % rest[0][0])
                    if n == 0:
                        R.count('first_joins')
                        if [e[1] for e in js] != threads: bad2('join', 'joins %d threads' % len(js))
                        if s.end != 'return': bad2('end', 'makes the interpreter crash'); continue
                        if panics:
                            tr = s.mem.get(('n', ('jh', threads[0])))
                            perr = tr is not None and tr[0] == 'a' and tr[2] == 1
                            if perr: R.count('panics')
                            if perr != (s.ret[2] == 1): bad2('panic', 'yields a value for a block that panicked' if perr else 'raises a panic for a block that did not')
                        else: p18.judge(W, Sub(R, label), I, [s], shape, flags)
                    else:
                        R.count('later_joins')
                        if js: bad2('again', 'joins a thread again')
                        if s.end != 'return': bad2('end', 'makes the interpreter crash'); continue
                        if s.ret[0] != 'a' or s.ret[2] != 1: bad2('stale', 'yields a value'); continue
                        if panic_name(I, s.ret[3][0]) != 'InvalidJoin': bad2('which', 'raises the panic %s' % panic_name(I, s.ret[3][0]))
                    nxt.append(s)
            cur = nxt

class Sub:
    """the judgement of the result of the block, reported for the join"""
    def __init__(s, R, label): s.R = R; s.label = label
    def count(s, *a): pass
    def bad(s, k, m): s.R.bad('result:' + k, 'the join of the asynchronous block %s gives a result in which %s' % (s.label, m))
