"""No command failure goes unreported."""
from p33 import Pos
from world import *
import itertools

TECHNIQUE = 'path-sensitive dataflow of command block execution, from the program tree to the system calls, with every system call succeeding or failing'
RULE = ('The evaluator of a command block is followed on explicit blocks of pipelines with every combination of the ? operator, each process start, wait, pipe and duplication succeeding or failing '
        'on paths of its own. On every path the errors in the resulting value are those of the commands that failed, one each, in order, with the exit status of that command '
        '(128 plus the signal, 127 when it could not be started) and its position; the value is nil when there is none; a pipeline is started exactly when no failing command before it lacks the ? operator.')
ASSUMPTIONS = ['pipelines of up to 3 commands, blocks of up to 3 pipelines (longer ones run the same loops)', 'std::process, os_pipe and std::io behave as documented']

def expected(c, W, I, st):
    """check the status of one failing command; message or None"""
    def test(status):
        if status is None or status[0] != 'int': return 'no status'
        v = status[1]
        if c.child is None:
            return None if number(I, st, v, {}) == 127 else 'a status other than 127 for a command that could not be started'
        kind, t, _ = c.waits[0]
        if kind == 'err': return None if number(I, st, v, {}) not in (None, 0) else 'a status of zero'
        if kind == 'none': return None if number(I, st, v, {}) not in (None, 0) else 'a status of zero'
        if kind == 'code': lf, pts, f = I.mk('code', t), (1, 2, 77, 128, 255), lambda x: x
        else: lf, pts, f = I.mk('signal', t), (1, 9, 15, 64), lambda x: 128 + x
        for x in pts:
            lo, hi = st.iv.get(lf, (0, 10 ** 9))
            if not lo <= x <= hi: continue
            y = number(I, st, v, {lf: x})
            if y != f(x): return 'status %s where the command %s %d' % (y, 'exited with' if kind == 'code' else 'was killed by signal', x)
        return None
    return test

def blocks(tier):
    out = []
    def fl(n): return itertools.product((True, False), repeat=n)
    for f in fl(1): out.append(([1], f, None))
    for f in fl(2): out.append(([2], f, None)); out.append(([1, 1], f, None))
    few = ('zero', 'code') if tier != 'thorough' else None
    for f in fl(3):
        out.append(([3], f, few)); out.append(([1, 1, 1], f, few)); out.append(([2, 1], f, few)); out.append(([1, 2], f, few))
    if tier == 'thorough':
        for f in fl(4): out.append(([2, 2], f, ('zero', 'code'))); out.append(([1, 2, 1], f, ('zero', 'code')))
    return out

def pos_in(W, I, pos, name):
    """is the position shown that of the command?"""
    if pos is None or pos[0] != 'other': return False
    got = Pos(W.P).shown(I, pos[1])
    names = [I.T.t[t] if t is not None else None for t in got]
    own = [k for k in names if k is not None and k[0] == 'n' and k[1] == name + '.pos']
    return bool(own) and all(k is not None and (k in own or not str(k[1]).endswith('pos')) for k in names)

def judge(W, R, I, res, shape, flags):
    names = [['c%d%d' % (i, j) for j in range(n)] for i, n in enumerate(shape)]
    abort = dict(zip([x for p in names for x in p], flags))
    label = '; '.join(' | '.join(x + ('' if abort[x] else ' ?') for x in p) for p in names)
    for st in res:
        R.count('paths')
        def bad(k, m): R.bad(k, 'the block { %s } %s, when: %s' % (label, m, story(I, st)))
        if st.end == 'cut': bad('cut', 'is executed by code that cannot be followed'); continue
        if st.end != 'return': bad('end', 'makes the interpreter crash'); continue
        cmds, other = happened(I, st)
        infra = [e for e in os_events(st) if e[0] == 'fail' and e[1] in ('pipe', 'dup')]
        failing = [cmds[x] for p in names for x in p if x in cmds and cmds[x].failed()]
        R.count('failing_commands', len(failing))
        if infra: R.count('infrastructure_failures')
        for o in other:
            if o[0] in ('procop', 'childop'): bad('op:' + o[1], 'uses %s, whose effect on the status is not known' % o[1])
            if o[0] == 'twice': bad('twice', 'starts %s twice' % o[1])
        for c in cmds.values():
            if c.child is not None and not c.waits: bad('unwaited', 'does not learn the status of %s' % c.name)
        if st.ret[0] != 'a' or st.ret[2] != 0:
            if not infra: bad('panic', 'raises a panic')
            continue
        d = decode(W, I, st, st.ret[3][0])
        got = leaves_of(d)
        if d is not None and d[0] != 'error': bad('kind', 'yields something other than nil or an error'); continue
        if any(c.child is not None and not c.waits for c in cmds.values()): continue
        gi = 0
        for c in failing:
            why = None
            while gi < len(got):
                g = got[gi]; gi += 1
                why = expected(c, W, I, st)(g[0])
                if why is None and not pos_in(W, I, g[1], c.name): why = 'the position of another command'
                if why is None or not infra: break
            else: why = why or 'nothing'
            if why is not None: bad('lost', 'reports %s for the failure of %s' % (why, c.name)); break
        else:
            if not infra and gi < len(got): bad('surplus', 'reports an error although no command failed' if not failing else 'reports more errors than commands failed')
            if infra and len(got) <= len(failing): bad('infra', 'reports no error although a command could not be started')
        # which pipelines ran
        if infra: continue
        go = True
        for p in names:
            ran = [x for x in p if x in cmds]
            if go and len(ran) < len(p): bad('stopped', 'does not run %s although nothing before it failed without ?' % ' | '.join(p)); break
            if not go and ran: bad('went-on', 'runs %s although a command before it failed without ?' % ' | '.join(p)); break
            if go and any(cmds[x].failed() and abort[x] for x in p): go = False

def check(P, R, tier):
    W = World(P)
    for shape, flags, outs in blocks(tier):
        it = iter(flags)
        cmds = [[{'abort': next(it)} for _ in range(n)] for n in shape]
        big = sum(shape) >= 3
        kw = {'outcomes': outs} if outs else {}
        I, res = W.run('Synchronous', cmds, nofail=('dup', 'pipe') if big and sum(shape) > 3 else (), **kw)
        R.count('blocks')
        judge(W, R, I, res, shape, flags)
    builtins(W, R)
    R.floor('paths', 1500); R.floor('failing_commands', 1000); R.floor('blocks', 40); R.floor('builtin_paths', 10)

def builtins(W, R):
    """failures of built-in commands"""
    for b, args in (('Cd', ['dir']), ('Spawn0', ['prog', 'zero', 'x']), ('Exec', ['prog', 'x']), ('Exec0', ['prog', 'zero', 'x'])):
        for ab in (True, False):
            I, res = W.run('Synchronous', [{'builtin': b, 'args': args, 'abort': ab}, [{}]], nofail=('dup', 'pipe'), outcomes=('zero', 'code', 'signal'))
            for st in res:
                R.count('builtin_paths')
                def bad(k, m): R.bad('builtin:%s:%s' % (b, k), 'the built-in %s%s %s, when: %s' % (b.lower(), '' if ab else ' ?', m, story(I, st)))
                if st.end != 'return' or st.ret[0] != 'a' or st.ret[2] != 0: bad('end', 'ends in a panic'); continue
                cmds, other = happened(I, st)
                evs = os_events(st)
                own = [e for e in evs if e[0] == 'fail' and e[1] in ('chdir', 'exec')]
                prog = cmds.get('prog')
                if prog is not None and prog.child is not None and not prog.waits: bad('unwaited', 'does not learn the status of its process'); continue
                failed = bool(own) or (prog is not None and prog.failed())
                got = leaves_of(decode(W, I, st, st.ret[3][0]))
                nxt = cmds.get('c10')
                if failed:
                    if not got: bad('lost', 'fails and no error is reported'); continue
                    if own:
                        if got[0][0] is None or got[0][0][0] != 'int' or number(I, st, got[0][0][1], {}) != 127: bad('status', 'fails with a status other than 127')
                    else:
                        why = expected(prog, W, I, st)(got[0][0])
                        if why: bad('status', 'reports ' + why)
                    if not pos_in(W, I, got[0][1], 'c0'): bad('pos', 'fails and the position reported is not its own')
                    if ab and nxt is not None: bad('went-on', 'fails without ? and the block goes on')
                    if not ab and nxt is None: bad('stopped', 'fails with ? and the block ends')
                elif nxt is None: bad('stopped', 'succeeds and the block ends')
                want = (1 if failed else 0) + (1 if nxt is not None and nxt.failed() else 0)
                if len(got) != want: bad('count', 'reports %d errors, %d commands failed' % (len(got), want))
