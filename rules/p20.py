"""Redirections go to the file or descriptor written, in the order written."""
from world import *
import itertools

TECHNIQUE = 'path-sensitive dataflow of command start-up on every short list of redirections with symbolic descriptors, compared with a reference'
RULE = ('The evaluator is followed on commands with explicit lists of redirections, the descriptor numbers being arbitrary integers, each system call succeeding or failing on paths of its own. Going through the list in order with '
        'the streams the command has without it gives the streams it must be started with: > the file, created and truncated, >> the file, created and opened for appending, < the file, opened for reading, '
        '<< a pipe into which the text and a line end are written by another thread, whose write end hush has released when it waits, n>m whatever m stands for at that point. When a descriptor other than standard output and error occurs, or a target does '
        'not expand to a single item, the block raises the panic for that and the command is not started; when a system call fails the command is not started, and an error is reported.')
ASSUMPTIONS = ['lists of up to 2 redirections (3 in thorough; longer ones run the same loop)', 'std::fs::OpenOptions, File::open and os_pipe behave as documented']

SYNC = {'stdin': ('std', 'stdin'), 'stdout': ('std', 'stdout'), 'stderr': ('std', 'stderr')}
SHOW = {'fd': lambda r: '%s>%s' % (r[1], r[2]), '<': lambda r: '< ' + show_arg(r[1]), '<<': lambda r: '<< ' + show_arg(r[1])}
def show_arg(a): return a if isinstance(a, str) else '$value' if a[0][0] == '$' else '*'
def show(r): return SHOW[r[0]](r) if r[0] in SHOW else '%s%s %s' % (r[1], r[0], show_arg(r[2]))

def alphabet(k):
    return [('>', 1, 'out%d' % k), ('>', 2, 'out%d' % k), ('>>', 1, 'out%d' % k), ('>>', 2, 'out%d' % k), ('fd', 1, 2), ('fd', 2, 1), ('<', 'in%d' % k), ('<<', 'text%d' % k)]
def symbolic(k): return [('>', 'n%d' % k, 'out%d' % k), ('>>', 'n%d' % k, 'out%d' % k), ('fd', 'n%d' % k, 'm%d' % k), ('fd', 1, 'm%d' % k), ('fd', 'n%d' % k, 2)]

def lists(tier):
    out = [[r] for r in alphabet(0) + symbolic(0)]
    out += [[a, b] for a in alphabet(0) for b in alphabet(1)]
    out += [[a, b] for a in alphabet(0)[:6] + alphabet(0)[6:] for b in symbolic(1)] + [[a, b] for a in symbolic(0) for b in alphabet(1)]
    if tier == 'thorough':
        out += [[a, b, c] for a in alphabet(0) for b in alphabet(1) for c in alphabet(2)]
        out += [[a, b] for a in symbolic(0) for b in symbolic(1)]
    return out

def check(P, R, tier):
    W = World(P)
    for rs in lists(tier):
        I, res = W.run('Synchronous', [[{'redirs': rs, 'abort': False}]], outcomes=('zero',), nofail=('dup',) if len(rs) > 1 else ())
        R.count('lists')
        for st in res: judge(P, W, R, I, st, 'c00', rs, SYNC, '{ c00 %s }' % ' '.join(map(show, rs)))
    # in pipelines and captures, where the streams are pipes
    for rs in [[('>', 1, 'out')], [('fd', 2, 1)], [('fd', 1, 2)], [('<', 'in')], [('<<', 'text')], [('fd', 2, 1), ('>', 1, 'out')], [('>', 1, 'out'), ('fd', 2, 1)]]:
        for kind, shape, which in (('Synchronous', 3, 1), ('Capture', 1, 0), ('Capture', 2, 0)):
            cs = [{'redirs': rs if j == which else [], 'abort': False} for j in range(shape)]
            plain, r0 = W.run(kind, [[{'abort': False} for j in range(shape)]], outcomes=('zero',), nofail=('dup', 'pipe', 'read'))
            base = None
            for s in r0:
                c = happened(plain, s)[0].get('c0%d' % which)
                if c is not None and c.child is not None: base = {k: v[0] for k, v in c.std.items()}
            if base is None: R.bad('base', 'cannot tell the streams of a command without redirections'); continue
            I, res = W.run(kind, [cs], outcomes=('zero',), nofail=('dup', 'pipe', 'read'))
            R.count('lists')
            for st in res: judge(P, W, R, I, st, 'c0%d' % which, rs, base, '%s block with the command c0%d %s' % (kind.lower(), which, ' '.join(map(show, rs))), rel=True)
    # targets which expand to some other number of items than one
    arr = lambda n: (lambda V: {0: V.array([V.string(b'x')] * n)})
    for op in ('>', '>>', '<', '<<'):
        for n in (0, 1, 2):
            for what in ('array', 'glob'):
                a = [('$', 0)] if what == 'array' else [('Star',)]
                rs = [(op, a) if op[0] == '<' else (op, 1, a)]
                I, res = W.run('Synchronous', [[{'redirs': rs, 'abort': False}]], slots=arr(n) if what == 'array' else None, outcomes=('zero',), nglob=(n,), nofail=('dup', 'open', 'pipe', 'glob', 'utf8'))
                R.count('lists')
                for st in res:
                    R.count('expanded_targets')
                    cmds, _ = happened(I, st)
                    c = cmds.get('c00')
                    def bad(k, m): R.bad(k, 'a redirection %s whose target expands to %d items %s, when: %s' % (op, n, m, story(I, st)))
                    if st.end != 'return': bad('end', 'makes the interpreter crash'); continue
                    panic = st.ret[2] == 1
                    if n == 1 and what == 'array' and (panic or c is None or not c.tried): bad('one', 'does not start the command')
                    if n != 1 and what == 'array':
                        if not panic: bad('count', 'does not raise a panic')
                        elif panic_name(I, st.ret[3][0]) != 'InvalidCommandArgs': bad('count', 'raises the panic %s' % panic_name(I, st.ret[3][0]))
                        if c is not None and c.tried: bad('ran', 'starts the command')
                    if panic and c is not None and c.tried: bad('ran', 'starts the command and raises a panic')
                    if what == 'glob':
                        if n == 1 and (panic or c is None or not c.tried): bad('one', 'does not start the command')
                        if n != 1 and not panic: bad('count', 'does not raise a panic')
    R.floor('lists', 200); R.floor('paths', 300); R.floor('started', 150); R.floor('refused', 50); R.floor('literal_inputs', 30); R.floor('expanded_targets', 20)

def eqk(I, st, v, k):
    """does the descriptor have the value k on this path? True, False or None"""
    if isinstance(v, int): return v == k
    t = I.mk('n', v)
    x = I.norm(st, ('s', t, I.P.ty_by_s['i32']))
    if x[0] == 'k': return I.signed(x[1], x[2]) == k
    if k in st.nots.get(t, ()): return False
    lo, hi = st.iv.get(t, (-10 ** 12, 10 ** 12))
    if not lo <= k <= hi: return False
    return None

def judge(P, W, R, I, st, name, rs, base, label, rel=False):
    R.count('paths')
    def bad(k, m): R.bad(k, 'in the %s the command %s, when: %s' % (label, m, story(I, st)))
    if st.end == 'cut': bad('cut', 'is started by code that cannot be followed'); return
    evs = os_events(st)
    cmds, other = happened(I, st)
    c = cmds.get(name)
    fails = [e for e in evs if e[0] == 'fail' and e[1] in ('open', 'pipe', 'dup', 'read')]
    tried = c is not None and c.tried
    if st.end != 'return': bad('end', 'makes the interpreter crash'); return
    panic = st.ret[0] == 'a' and st.ret[2] == 1
    if fails:
        if any(e[1] != 'read' for e in fails):
            if tried: bad('failed-ran', 'is started although %s failed' % fails[0][1])
            if not panic and not leaves_of(decode(W, I, st, st.ret[3][0])): bad('failed-quiet', 'is not started and no error is reported')
            R.count('refused')
        return
    # reference
    cur = dict(base); refused = None; pipes = []
    for r in rs:
        if r[0] == '<': cur['stdin'] = ('file', ('read',), tuple(r[1].encode()))
        elif r[0] == '<<': cur['stdin'] = ('text', tuple(r[1].encode()) + (10,))
        else:
            if r[0] == 'fd':
                y = {k: eqk(I, st, r[2], k) for k in (1, 2)}
                if y[1] is None or y[2] is None:
                    if y[1] or y[2]: pass
                    else: refused = ('?', r[2]); break
                if y[1]: tgt = cur['stdout']
                elif y[2]: tgt = cur['stderr']
                else: refused = ('fd', r[2]); break
            else: tgt = ('file', r[0], tuple(r[2].encode()))
            y = {k: eqk(I, st, r[1], k) for k in (1, 2)}
            if y[1]: cur['stdout'] = tgt
            elif y[2]: cur['stderr'] = tgt
            elif y[1] is False and y[2] is False: refused = ('fd', r[1]); break
            else: refused = ('?', r[1]); break
    if refused is not None:
        R.count('refused')
        if refused[0] == '?' and tried: bad('unchecked', 'is started whatever the descriptor %s is' % refused[1]); return
        if tried: bad('bad-fd', 'is started although it redirects an unsupported descriptor'); return
        if not panic: bad('bad-fd-quiet', 'redirects an unsupported descriptor and no panic is raised')
        elif panic_name(I, st.ret[3][0]) != 'UnsupportedFileDescriptor': bad('bad-fd-panic', 'redirects an unsupported descriptor and the panic is %s' % panic_name(I, st.ret[3][0]))
        return
    if panic: bad('panic', 'raises a panic'); return
    if not tried: bad('not-run', 'is not started'); return
    R.count('started')
    names = {}
    for s in ('stdin', 'stdout', 'stderr'):
        got = c.std.get(s, (None,))[0]
        want = cur[s]
        if not same(evs, R, got, want, base, rel, names): bad('stream:' + s, 'has %s as %s and should have %s' % (words(got), s, words(want)))
    for r in rs:
        if r[0] == '<<': R.count('literal_inputs')
    # literal input: another thread writes it, and nobody holds the write end while waiting
    depth = 0
    for e in evs:
        if e[0] == 'thread': depth += 1
        elif e[0] == 'thread-end': depth -= 1
        elif e[0] == 'write' and not depth: bad('inline-write', 'is given its input by the thread that starts it, which blocks when the input is large')
    lit = {d[1] for d in [e[1] for e in evs if e[0] == 'write'] if d[0] == 'pipe'}
    for e, held in alive(I, st):
        if e[0] == 'wait':
            for h, (d, pr) in held.items():
                if d[0] == 'pipe' and d[1] in lit: bad('held', 'is waited for while hush holds the %s end of the pipe of its input' % {'w': 'write', 'r': 'read'}[d[2]]); break

def words(d):
    if d is None: return 'nothing'
    if d[0] == 'std': return 'the %s of hush' % d[1]
    if d[0] == 'file': return 'the file %s opened with %s' % (txt(d[2]), '+'.join(d[1]) if isinstance(d[1], tuple) else d[1])
    if d[0] == 'text': return 'a pipe with its text'
    return 'a pipe'

def same(evs, R, got, want, base, rel, names):
    if got is None: return False
    if want[0] == 'text':
        if got[0] != 'pipe' or got[2] != 'r': return False
        w = [e for e in evs if e[0] == 'write' and e[1] == ('pipe', got[1], 'w')]
        t = ()
        for e in w:
            if e[3] != 'write_all' or (e[2] and e[2][0] == 't'): return False
            t += tuple(e[2])
        return t == want[1]
    if want[0] == 'file':
        if got[0] != 'file' or got[2] != want[2]: return False
        fl = set(got[1])
        if want[1] == '>': return fl == {'create', 'truncate', 'write'}
        if want[1] == '>>': return fl - {'write'} == {'append', 'create'}
        return fl == {'read'}
    if want[0] == 'pipe' and rel:
        # pipes are numbered by creation, which redirections may change
        if got[0] != 'pipe' or got[2] != want[2]: return False
        return names.setdefault(want[1], got[1]) == got[1]
    return got == want
