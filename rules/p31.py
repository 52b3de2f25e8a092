"""Built-in commands act on exactly their arguments, and patterns see the directory as earlier commands left it."""
from world import *

TECHNIQUE = 'path-sensitive dataflow of command blocks with built-in commands over explicit argument lists, compared with a reference'
RULE = ('The evaluator is followed on blocks with each built-in command and every short list of arguments - literal, the items of an array, or a pattern with any number of matches - each system call succeeding or failing on '
        'paths of its own. cd changes the directory once, to its only item; with no or several items it raises a panic counting them and changes nothing. exec replaces the interpreter by the program of its first item with the '
        'other items as arguments; exec0 and spawn0 take the name the program sees from the second item and the arguments from the rest, and spawn0 starts a process and waits for it, once. With too few items a panic is '
        'raised and nothing is started. alias, which has no meaning yet, reports an error. No built-in does anything else to the operating system. The patterns of a command, built-in or not, are matched after the commands before it in the block have ended or have '
        'changed the directory, not earlier.')
ASSUMPTIONS = ['lists of up to 3 arguments (longer ones run the same loops)', 'std::process, std::env::set_current_dir and glob behave as documented']

def argslists():
    lit = [['a'], ['a', 'b'], ['a', 'b', 'c'], []]
    out = [('%d literals' % len(l), l, None) for l in lit]
    for n in range(4): out.append(('an array of %d items' % n, [[('$', 0)]], n))
    out.append(('a literal and an array of 2 items', ['a', [('$', 0)]], 2))
    out.append(('an array of 2 items and a literal', [[('$', 0)], 'z'], 2))
    out.append(('a pattern', [[('Star',)]], None))
    out.append(('a literal and a pattern', ['a', [('Star',)]], None))
    out.append(('a pattern and a literal', [[('Star',)], 'z'], None))
    return out

def items_of(I, st, args, n):
    """the items the arguments expand to on this path, as text"""
    found = [e[1] for e in os_events(st) if e[0] == 'found']
    out = []
    for a in args:
        if isinstance(a, str): out.append(tuple(a.encode()))
        elif a[0][0] == '$': out += [tuple(b'item%d' % i) for i in range(n)]
        else: out += [('match', t) for t in found]
    return out

def is_item(I, got, want):
    if want and want[0] == 'match':
        # ./ and the path, or the path as it is (absolute patterns only)
        return isinstance(got, tuple) and got[:2] == (46, 47) and len(got) == 3 and got[2] == ('t', want[1])
    return got == want

def check(P, R, tier):
    W = World(P)
    for b in ('Cd', 'Exec', 'Exec0', 'Spawn0'):
        for label, args, n in argslists():
            slots = (lambda V: {0: V.array([V.string(b'item%d' % i) for i in range(n)])}) if n is not None else None
            I, res = W.run('Synchronous', [{'builtin': b, 'args': args, 'abort': True}], slots=slots, nofail=('dup', 'utf8'), outcomes=('zero', 'code'), nglob=(0, 1, 2, 3) if tier == 'thorough' else (0, 1, 2))
            for st in res:
                R.count('paths')
                judge(P, W, R, I, st, b, label, args, n)
    alias(P, W, R)
    order(P, W, R)
    R.floor('paths', 60); R.floor('done', 20); R.floor('refused', 10); R.floor('late_patterns', 6)

def judge(P, W, R, I, st, b, label, args, n):
    def bad(k, m): R.bad('%s:%s' % (b, k), 'the built-in %s with %s %s, when: %s' % (b.lower(), label, m, story(I, st)))
    if st.end != 'return': bad('end', 'makes the interpreter crash' if st.end == 'rpanic' else 'cannot be followed'); return
    evs = os_events(st)
    panic = st.ret[0] == 'a' and st.ret[2] == 1
    acts = [e for e in evs if e[0] not in ('fd', 'drop', 'glob', 'found', 'fail', 'getenv')]
    if any(e[0] == 'fail' and e[1] == 'glob' for e in evs):
        if acts: bad('pattern', 'has an invalid pattern and acts all the same')
        if not panic: bad('pattern-quiet', 'has an invalid pattern and raises no panic')
        return
    if any(isinstance(a, list) and a[0][0] == 'Star' for a in args) and not any(e[0] == 'glob' for e in evs): bad('pattern-lost', 'does not expand its pattern'); return
    items = items_of(I, st, args, n)
    lo = {'Cd': 1, 'Exec': 1, 'Exec0': 2, 'Spawn0': 2}[b]
    if len(items) < lo or (b == 'Cd' and len(items) > 1):
        R.count('refused')
        if [e for e in acts if e[0] in ('chdir', 'spawn', 'nospawn', 'execve')]: bad('acts', 'acts although it was given %d items' % len(items))
        if not panic: bad('count', 'is given %d items and raises no panic' % len(items)); return
        if panic_name(I, st.ret[3][0]) != 'InvalidCommandArgs': bad('panic', 'is given %d items and raises the panic %s' % (len(items), panic_name(I, st.ret[3][0]))); return
        if b == 'Cd' or not items:
            k = field(P, I, st, st.ret[3][0], 'items')
            if k is not None and (k[0] != 'k' or k[1] != len(items)): bad('told', 'is given %d items and the panic tells %s' % (len(items), k[1] if k[0] == 'k' else 'another number'))
        return
    if panic: bad('panic', 'raises a panic'); return
    R.count('done')
    if b == 'Cd':
        if [e[0] for e in acts] != ['chdir']: bad('acts', 'does %s instead of changing the directory once' % ([e[0] for e in acts] or 'nothing')); return
        if not is_item(I, acts[0][1], items[0]): bad('dir', 'changes to another directory than its item')
        return
    news = [e for e in acts if e[0] == 'new']
    if len(news) != 1: bad('programs', 'prepares %d programs' % len(news)); return
    if not is_item(I, news[0][2], items[0]): bad('program', 'runs another program than its first item')
    rest = items[1:]
    a0 = [e[2] for e in acts if e[0] == 'arg0']
    if b == 'Exec':
        if a0 and not (len(a0) == 1 and is_item(I, a0[0], items[0])): bad('arg0', 'changes the name the program sees')
    else:
        if len(a0) != 1 or not is_item(I, a0[0], items[1]): bad('arg0', 'does not give the program its second item as its name')
        rest = items[2:]
    got = [e[2] for e in acts if e[0] == 'arg']
    if len(got) != len(rest) or not all(is_item(I, g, w) for g, w in zip(got, rest)): bad('args', 'gives the program other arguments than its items, in order')
    kinds = [e[0] for e in acts if e[0] not in ('new', 'arg', 'arg0', 'args')]
    if b == 'Spawn0':
        if kinds not in (['spawn', 'wait'], ['nospawn']): bad('acts', 'does %s instead of starting a process and waiting for it' % kinds)
    elif kinds != ['execve']: bad('acts', 'does %s instead of replacing the interpreter' % kinds)
    last = max(i for i, e in enumerate(acts) if e[0] in ('spawn', 'nospawn', 'execve')) if any(e[0] in ('spawn', 'nospawn', 'execve') for e in acts) else len(acts)
    if any(e[0] in ('arg', 'arg0') for e in acts[last:]): bad('late', 'prepares the program after it was started')

def field(P, I, st, v, name):
    while v[0] == 'r': v = I.read(st, v[1], v[2])
    if v[0] != 'a' or v[1] is None: return None
    fs = P.types[v[1]]['v'][v[2]]['f']
    for f, x in zip(fs, v[3]):
        if f[0] == name: return I.norm(st, x)
    return None

def alias(P, W, R):
    """alias is a name without a documented meaning; it must not abort the interpreter"""
    I, res = W.run('Synchronous', [{'builtin': 'Alias', 'args': ['x', 'y'], 'abort': True}], nofail=('dup', 'utf8', 'glob'))
    for st in res:
        R.count('paths')
        if st.end != 'return': R.bad('Alias:end', 'the built-in alias makes the interpreter crash'); return
        if st.ret[0] == 'a' and st.ret[2] == 0 and not leaves_of(decode(W, I, st, st.ret[3][0])): R.bad('Alias:quiet', 'the built-in alias does nothing and reports no error'); return
        if [e for e in os_events(st) if e[0] in ('chdir', 'spawn', 'nospawn', 'execve')]: R.bad('Alias:acts', 'the built-in alias acts on the operating system'); return

def order(P, W, R):
    """patterns are matched when the turn of their command comes"""
    star = [('Star',)]
    for label, cmds, key in (
            ('{ cd d; c10 * }', [{'builtin': 'Cd', 'args': ['d']}, [{'args': [star]}]], 'chdir'),
            ('{ cd d; cd * }', [{'builtin': 'Cd', 'args': ['d']}, {'builtin': 'Cd', 'args': [star]}], 'chdir'),
            ('{ cd d; c10 | c11 * }', [{'builtin': 'Cd', 'args': ['d']}, [{}, {'args': [star]}]], 'chdir'),
            ('{ cd d; c10 > * }', [{'builtin': 'Cd', 'args': ['d']}, [{'redirs': [('>', 1, star)]}]], 'chdir'),
            ('{ cd d; * }', [{'builtin': 'Cd', 'args': ['d']}, [{'program': star}]], 'chdir'),
            ('{ c00; c10 * }', [[{}], [{'args': [star]}]], 'wait'),
            ('{ c00 | c01; c10 * }', [[{}, {}], [{'args': [star]}]], 'wait'),
            ('{ spawn0 p q; c10 * }', [{'builtin': 'Spawn0', 'args': ['p', 'q']}, [{'args': [star]}]], 'wait'),
            ('{ c00; cd * }', [[{}], {'builtin': 'Cd', 'args': [star]}], 'wait')):
        I, res = W.run('Synchronous', cmds, nofail=('dup', 'utf8', 'pipe', 'open', 'spawn', 'glob'), outcomes=('zero',), nglob=(1,))
        for st in res:
            R.count('paths')
            evs = os_events(st)
            if st.end != 'return': R.bad('order:end', 'the block %s makes the interpreter crash, when: %s' % (label, story(I, st))); continue
            pos = [i for i, e in enumerate(evs) if e[0] == 'glob']
            if any(e[0] == 'fail' for e in evs): continue
            if not pos: R.bad('order:lost', 'the pattern of the block %s is not expanded, when: %s' % (label, story(I, st))); continue
            want = 2 if '|' in label and key == 'wait' else 1
            before = [e for e in evs[:pos[0]] if e[0] == key]
            if len(before) < want: R.bad('order:early', 'the pattern of the block %s is matched before the commands in front of it have run, when: %s' % (label, story(I, st))); continue
            R.count('late_patterns')
