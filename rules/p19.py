"""Pipelines connect each command to the next, and every process is waited for."""
from world import *

TECHNIQUE = 'path-sensitive dataflow of pipeline execution with a model of pipe ends, processes and their owners'
RULE = ('The evaluator of a command block is followed on explicit pipelines, each process start and each pipe succeeding or failing on paths of its own. On every path the standard input of each command after the '
        'first is the read end of the pipe whose write end is the standard output of the command before it; the first command has the standard input of hush, the last the standard output of the block, '
        'and all the standard error of the block; every command of the pipeline is started before any is waited for; every process started is waited for exactly once, before the next pipeline starts and before the block '
        'yields a result; and while hush waits it holds no end of a pipe between commands, so readers see the end of their input.')
ASSUMPTIONS = ['pipelines of up to 4 commands (longer ones run the same loop)', 'process::Command holds the handles it is given until it is dropped', 'pipe ends are not inherited by other processes (close-on-exec)']

def check(P, R, tier):
    W = World(P)
    shapes = [('Synchronous', [1]), ('Synchronous', [2]), ('Synchronous', [3]), ('Synchronous', [4]), ('Synchronous', [2, 2]), ('Capture', [2]), ('Capture', [1, 2]), ('Asynchronous', [2]), ('Asynchronous', [3])]
    if tier == 'thorough': shapes += [('Synchronous', [5]), ('Capture', [3]), ('Synchronous', [3, 2]), ('Asynchronous', [2, 2])]
    shapes = [(k, s, [False] * sum(s)) for k, s in shapes] + [('Synchronous', s, a) for s, a in [([2], [1, 1]), ([3], [1, 0, 1]), ([2, 1], [0, 1, 1])]]
    for kind, shape, aborts in shapes:
        n = sum(shape)
        aborts = iter(aborts)
        nofail = ('read',) if n < 4 else ('read', 'dup')
        I, res = W.run(kind, [[{'abort': bool(next(aborts))} for _ in range(k)] for k in shape], outcomes=('zero', 'code') if n < 4 else ('zero',), nofail=nofail, max_visits=14)
        R.count('blocks')
        names = [['c%d%d' % (i, j) for j in range(k)] for i, k in enumerate(shape)]
        label = '%s block { %s }' % (kind.lower(), '; '.join(' | '.join(p) for p in names))
        for st in res:
            R.count('paths')
            def bad(k, m): R.bad(k, 'in the %s %s, when: %s' % (label, m, story(I, st)))
            if st.end == 'cut': bad('cut', 'code that cannot be followed is used'); continue
            cmds, other = happened(I, st)
            evs = os_events(st)
            infra = any(e[0] == 'fail' and e[1] in ('pipe', 'dup') for e in evs)
            for o in other:
                if o[0] == 'childop' or (o[0] == 'procop' and o[1] in ('output', 'status', 'pre_exec')): bad('op:' + o[1], '%s is used, whose effect is not known' % o[1])
                if o[0] == 'twice': bad('twice', '%s is started twice' % o[1])
            users = {}
            for c in cmds.values():
                if not c.tried: continue
                for s, (d, h) in c.std.items():
                    users.setdefault(d, []).append((c.name, s))
            if kind == 'Capture':
                last = [cmds[p[-1]] for p in names if p[-1] in cmds and cmds[p[-1]].tried]
                outs = {c.std.get('stdout', (None,))[0] for c in last}; errs = {c.std.get('stderr', (None,))[0] for c in cmds.values() if c.tried}
                if len(outs) > 1 or any(d is None or d[0] != 'pipe' for d in outs): bad('out', 'the last commands do not all write to the captured output')
                if len(errs) > 1 or any(d is None or d[0] != 'pipe' for d in errs): bad('err', 'the commands do not all write errors to the captured errors')
                block_out = outs; inner = lambda d: d[0] == 'pipe' and d not in outs and d not in errs and (d[0], d[1], 'w') not in outs | errs
            else:
                block_out = {('std', 'stdout')}; inner = lambda d: d[0] == 'pipe'
                for c in cmds.values():
                    if c.tried and c.std.get('stderr', (None,))[0] not in (('std', 'stderr'),): bad('err', '%s has %s as standard error' % (c.name, c.std.get('stderr', ('none',))[0]))
            for p in names:
                for j, x in enumerate(p):
                    c = cmds.get(x)
                    if c is None or not c.tried: continue
                    R.count('wired_commands')
                    i, o = c.std.get('stdin', (None,))[0], c.std.get('stdout', (None,))[0]
                    if j == 0:
                        if i != ('std', 'stdin'): bad('first', 'the first command %s reads from %s' % (x, i))
                    else:
                        if i is None or i[0] != 'pipe' or i[2] != 'r': bad('in', '%s reads from %s and not from a pipe' % (x, i))
                        prev = cmds.get(p[j - 1])
                        if prev is not None and prev.tried and i is not None:
                            po = prev.std.get('stdout', (None,))[0]
                            if po is None or po[0] != 'pipe' or po[1:] != (i[1], 'w'): bad('link', 'the output of %s does not go to %s' % (p[j - 1], x))
                    if j == len(p) - 1 and o not in block_out: bad('last', 'the last command %s writes to %s' % (x, o))
            for d, us in users.items():
                if inner(d) and len(us) > 1: bad('shared', 'one pipe end is given to %s' % us)
            # waiting
            for p in names:
                cs = [cmds[x] for x in p if x in cmds]
                started = [c for c in cs if c.child is not None]
                for c in started:
                    R.count('processes')
                    if len(c.waits) != 1:
                        if st.end == 'diverge' and not c.waits: continue
                        bad('waits', '%s is waited for %d times' % (c.name, len(c.waits)))
                ws = [c.waits[0][2] for c in started if c.waits]
                if ws and cs:
                    late = [c for c in cs if c.start is not None and c.start > min(ws)]
                    if late: bad('serial', '%s is started only after another command of the pipeline was waited for' % late[0].name)
                    if not infra and any(x not in cmds for x in p): bad('missing', 'the pipeline is not started as a whole')
                    k = names.index(p)
                    for q in names[k + 1:]:
                        nx = [cmds[x].start for x in q if x in cmds and cmds[x].start is not None]
                        if nx and min(nx) < max(ws): bad('order', 'the next pipeline starts before this one was waited for')
            for e, held in alive(I, st):
                if e[0] == 'wait':
                    R.count('waits')
                    for h, (d, pr) in held.items():
                        if inner(d): bad('held', 'hush holds %s of a pipe between commands%s while it waits' % ('the write end' if d[2] == 'w' else 'the read end', ' (in the command it was started from)' if pr is not None else '')); break
    R.floor('paths', 100); R.floor('wired_commands', 300); R.floor('processes', 200); R.floor('waits', 200); R.floor('blocks', 9)
