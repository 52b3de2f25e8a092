"""Captured output is complete and capturing does not deadlock."""
from world import *

TECHNIQUE = 'path-sensitive dataflow of capture blocks with a model of pipe ends, threads and who holds which handle when'
RULE = ('The evaluator is followed on explicit capture blocks, with every system call succeeding or failing on paths of its own. On every path all commands write their errors to the one error pipe and the last '
        'command of every pipeline its output to the one output pipe; each of the two pipes is read to its end exactly once, in a thread begun before the first process, which reads nothing else and waits for nothing; those threads '
        'are joined only when hush itself holds no write end of either pipe; the resulting dictionary (or the context of the resulting error) has what was read from the output pipe as stdout '
        'and what was read from the error pipe as stderr, and nothing but the error besides; when reading fails, the block raises a panic.')
ASSUMPTIONS = ['blocks of up to 3 commands (longer ones run the same loops)', 'read_to_end reads until every write end is closed', 'commands do not leave processes behind which keep the pipes open']

def check(P, R, tier):
    W = World(P)
    shapes = [[1], [2], [3], [1, 1], [2, 1], [1, 2]] + ([[2, 2], [1, 1, 1], [4]] if tier == 'thorough' else [])
    for shape in shapes:
        n = sum(shape)
        for abort in (True, False):
            I, res = W.run('Capture', [[{'abort': abort}] * k for k in shape], outcomes=('zero', 'code') if n < 4 else ('zero', 'code'), nofail=() if n < 3 else ('dup', 'pipe'), max_visits=14)
            R.count('blocks')
            names = [['c%d%d' % (i, j) for j in range(k)] for i, k in enumerate(shape)]
            label = '${ %s }' % '; '.join(' | '.join(x + ('' if abort else ' ?') for x in p) for p in names)
            for st in res:
                R.count('paths')
                judge(P, W, R, I, st, names, lambda k, m: R.bad(k, 'the capture block %s %s, when: %s' % (label, m, story(I, st))))
    R.floor('paths', 150); R.floor('captured_commands', 200); R.floor('reads', 200); R.floor('results', 100); R.floor('blocks', 12); R.floor('failed_reads', 20)

def judge(P, W, R, I, st, names, bad):
    if st.end == 'cut': bad('cut', 'is executed by code that cannot be followed'); return
    cmds, other = happened(I, st)
    evs = os_events(st)
    for o in other:
        if o[0] in ('procop', 'childop') and o[1] in ('output', 'wait_with_output', 'take', 'stdout', 'stderr'): bad('op:' + o[1], 'uses %s, whose effect is not known' % o[1])
    tried = [c for c in cmds.values() if c.tried]
    R.count('captured_commands', len(tried))
    lasts = {p[-1] for p in names}
    outs = {c.std.get('stdout', (None,))[0] for c in tried if c.name in lasts}
    errs = {c.std.get('stderr', (None,))[0] for c in tried}
    for what, s in (('output', outs), ('errors', errs)):
        if any(d is None or d[0] != 'pipe' or d[2] != 'w' for d in s): bad('where:' + what, 'does not give a pipe to capture the %s to every command (%s)' % (what, s)); return
        if len(s) > 1: bad('several:' + what, 'gives different pipes to capture the %s' % what); return
    if outs & errs: bad('mixed', 'captures both streams in one pipe'); return
    rd = {k: (('pipe', list(s)[0][1], 'r') if s else None) for k, s in (('stdout', outs), ('stderr', errs))}
    # threads and reads
    thread = None; begun = {}; reads = {}; started = None; joins = {}
    for i, e in enumerate(evs):
        if e[0] == 'thread': thread = e[1]; begun[e[1]] = i
        elif e[0] == 'thread-end': thread = None
        elif e[0] == 'read':
            R.count('reads')
            reads.setdefault(e[1], []).append((i, thread, evs[i + 1][:2] == ('fail', 'read')))
        elif e[0] in ('spawn', 'wait'):
            if thread is not None: bad('thread-%s' % e[0], 'has the reader of the output start or wait for processes')
            if started is None: started = i
        elif e[0] == 'join':
            if thread is not None: bad('join-in', 'has a reader wait for another thread')
            joins.setdefault(e[1], i)
    if started is not None:
        for k, d in rd.items():
            if d is None: continue
            rs = reads.get(d, [])
            if not rs: bad('unread:' + k, 'never reads the %s of its commands' % k); continue
            if len(rs) > 1: bad('reread:' + k, 'reads the %s of its commands several times' % k); continue
            i, th, failed = rs[0]
            if failed: R.count('failed_reads')
            if th is None:
                # in the main thread: only after everything ended could that be safe, and then large output blocks
                bad('inline:' + k, 'reads the %s of its commands in the thread that waits for them' % k); continue
            if begun[th] > started: bad('late:' + k, 'starts to read the %s only after a command has been started' % k)
            if [x for x, q in reads.items() if x != d and any(t == th for _, t, _ in q)]: bad('shared:' + k, 'reads both streams in one thread, one after the other')
    # joining: no write ends in hush
    for e, held in alive(I, st):
        if e[0] == 'join':
            for h, (d, pr) in held.items():
                if d[0] == 'pipe' and d[2] == 'w' and any(r is not None and r[1] == d[1] for r in rd.values()):
                    bad('held', 'waits for the readers while hush holds a write end of a captured pipe, so that they never see the end'); break
    # the result
    failedread = any(f for q in reads.values() for _, _, f in q)
    if st.end != 'return':
        if not any(e[0] == 'fail' for e in evs) and st.end == 'diverge': return
        bad('end', 'makes the interpreter crash'); return
    if st.ret[0] != 'a' or st.ret[2] != 0:
        if not any(e[0] == 'fail' and e[1] in ('pipe', 'dup', 'read') for e in evs): bad('panic', 'raises a panic')
        return
    if failedread: bad('partial', 'yields a value although reading the output failed'); return
    v = decode(W, I, st, st.ret[3][0])
    ctx = v
    err = None
    if v is not None and v[0] == 'error':
        ctx = v[2]
    if ctx is None or ctx[0] != 'dict': bad('shape', 'yields %s' % (v and v[0])); return
    if v[0] == 'error' and 'error' not in ctx[1]: bad('shape', 'yields an error without the context of the failure'); return
    if set(ctx[1]) - {'error'} != {'stdout', 'stderr'}: bad('keys', 'yields a dictionary with %s' % sorted(map(str, ctx[1]))); return
    if v[0] == 'dict' and 'error' in ctx[1]: bad('keys', 'yields an error under a key of the result')
    R.count('results')
    for k in ('stdout', 'stderr'):
        d = rd[k]
        x = ctx[1][k]
        got = data(I, st, x)
        if d is None: continue
        if not joins: bad('unjoined', 'does not wait for the readers')
        if got != [str(d)]: bad('content:' + k, 'yields %s as %s' % ('what was read from ' + ', '.join(got) if got else 'something not read', k))

def data(I, st, x):
    """pipes whose data a value consists of"""
    if x is None or x[0] != 'other': return []
    out = []; stack = [x[1]]; seen = set()
    while stack:
        t = stack.pop()
        if t in seen: continue
        seen.add(t)
        k = I.T.t[t]
        if k[0] == 'data': out.append(k[1]); continue
        for p in k[1:]:
            if isinstance(p, bool): continue
            if isinstance(p, int): stack.append(p)
            elif isinstance(p, tuple): stack += [q for q in p if isinstance(q, int) and not isinstance(q, bool)]
    return out
