"""Element access and assignment."""
from values import *

TECHNIQUE = 'path-sensitive dataflow (abstract interpretation) with explicit containers'
RULE = ('Path-sensitive dataflow over the evaluation of element reads and element assignments, through the container operations, for every '
        'pair of value types of object and key: arrays and strings of 0 to 3 elements with in-range, negative, one-past-the-end and extreme '
        'indices, dictionaries with an arbitrary map and key, error values with an arbitrary key. The outcome (element, panic kind) must be the '
        'documented one, an assignment must change exactly the addressed element, and no path that raises a panic may change a container.')
ASSUMPTIONS = ['HashMap and Vec behave as documented', 'equality and hashing of keys are decided by P23']

INDICES = [0, 1, 2, 3, 4, -1, -2, -3, -(1 << 63), (1 << 63) - 1, 1 << 32, (1 << 32) + 1, -(1 << 32)]

def explore_with(E, s, build, **kw):
    """explore a node scenario with given values of its sub-expressions; build(V) -> {name: value}"""
    box = {}
    def setup(I, b):
        V = Vals(E.P, I)
        I.V = V
        I.given = build(V)
        ct = child_terms(E, I, s)
        box['g'] = {t: I.given[nm] for t, nm in ct.items() if nm in I.given}
    hooks = list(kw.pop('hooks', ())) + [presets_hook(E, lambda I: box['g'])]
    return E.explore(s.kind, s.variant, presets=s.presets, hooks=hooks, extra_setup=setup, **kw)

def consts_of(I, t):
    """string constants (directly or through a thread local) in a term"""
    tls = tls_strings(I.P)
    out = [b.decode('latin1') for b in find_bytes(I, t)]
    p = tls_of(I, t)
    if p in tls: out.append(tls[p])
    return out

def eq_facts(I, st, term):
    """{string constant: bool} for comparisons of the term with constants on this path"""
    out = {}
    for k, v in st.facts.items():
        kk = I.T.t[k]
        if kk[0] in ('veq', 'eq', 'Eq') and leaves(I, k, {term}):
            for c in consts_of(I, k): out[c] = bool(v)
        elif kk[0] == 'call' and kk[1].endswith(('::eq', '::ne')) and leaves(I, k, {term}):
            for c in consts_of(I, k): out[c] = bool(v) == kk[1].endswith('::eq')
    return out

def presence(I, st, mapt, key):
    """did a lookup of the key in the map succeed on this path? True/False/None"""
    for k, v in st.facts.items():
        kk = I.T.t[k]
        if kk[0] == 'disc' and leaves(I, kk[1], {mapt}) and leaves(I, kk[1], {key}) and 'Option' in I.types[kk[2][1]]['s']: return v == 1
        if kk[0] == 'call' and kk[1].endswith('contains_key') and leaves(I, k, {mapt}) and leaves(I, k, {key}): return bool(v)
    return None

def mutations(I, st):
    """events that change a container"""
    out = []
    for e in st.events():
        if e[0] == 'push': out.append('push')
        elif e[0] == 'call' and e[7].get('krate') != 'hush':
            for i, x in enumerate(e[2]):
                if e[1].startswith(('std::collections', 'std::vec', 'core::slice', 'std::slice', 'std::mem')): out.append(e[1]); break
    return out

def check(P, R, tier):
    E = Eval(P)
    scn = {s.label: s for s in scenarios(E)}
    acc = need(scn.get('Access'), 'access expression'); asg = need(scn.get('Assign.Access'), 'element assignment')
    sizes = (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4, 5)
    reads(P, R, E, acc, sizes)
    writes(P, R, E, asg, sizes)
    R.floor('read_cases', 150); R.floor('write_cases', 150)

def outcome(E, I, st, kind):
    o = E.outcome(I, st, kind)
    if o[0] == 'panic': return ('panic', panic_name(I, o[1]))
    if o[0] == 'flow' and o[1] == 'Regular': return ('value', o[2])
    return (o[0], o[1] if len(o) > 1 and isinstance(o[1], str) else None)

def live(res): return [s for s in res if s.end != 'infeasible']

def show(I, st, o):
    if o[0] == 'value': return 'gives %s' % I.show(I.term(st, o[1]), 5)
    return 'ends with %s %s' % (o[0], o[1])

def reads(P, R, E, s, sizes):
    def run(build): return explore_with(E, s, build)
    def fail(key, what, I, st, o, exp): R.bad('read:' + key, 'reading %s %s, expected %s; %s' % (what, show(I, st, o), exp, fmt_path(I, st)))
    for n in sizes:
        for kind in ('Array', 'String'):
            for ix in INDICES:
                R.count('read_cases')
                mk = (lambda V: V.array([V.any('e%d' % i) for i in range(n)])) if kind == 'Array' else (lambda V: V.string(V.symbytes(n)))
                I, res = run(lambda V: {'object': mk(V), 'field': V.int(ix)})
                for st in live(res):
                    R.count('read_paths')
                    o = outcome(E, I, st, 'expr')
                    what = 'index %d of %s of %d elements' % (ix, 'an array' if kind == 'Array' else 'a string', n)
                    if 0 <= ix < n:
                        want = I.mk('v', 'e%d' % ix) if kind == 'Array' else I.term(st, I.V.mk('Byte', I.V.symbytes(n)[ix]))
                        if o[0] != 'value' or I.term(st, o[1]) != want: fail(kind, what, I, st, o, 'that element')
                    elif o != ('panic', 'IndexOutOfBounds'): fail(kind + ':bounds', what, I, st, o, 'an out of bounds panic')
                    if mutations(I, st): fail(kind + ':changes', what, I, st, o, 'no change of the container')
    for kind in E.kinds:
        for fk in E.kinds:
            R.count('read_cases')
            I, res = run(lambda V: {'object': V.sym(kind, 'obj'), 'field': V.sym(fk, 'key')})
            for st in live(res):
                R.count('read_paths')
                o = outcome(E, I, st, 'expr')
                if kind in ('Array', 'String'):
                    if fk != 'Int' and o != ('panic', 'TypeError'): fail('%s:%s' % (kind, fk), 'a %s with a %s key' % (kind, fk), I, st, o, 'a type error')
                elif kind == 'Dict':
                    if not (o[0] == 'value' or o == ('panic', 'IndexOutOfBounds')): fail('Dict:%s' % fk, 'a dict with a %s key' % fk, I, st, o, 'the element or an out of bounds panic')
                elif kind == 'Error':
                    if fk != 'String' and o[0] != 'value' and o != ('panic', 'IndexOutOfBounds'): fail('Error:%s' % fk, 'an error with a %s key' % fk, I, st, o, 'an out of bounds panic')
                elif o != ('panic', 'TypeError'): fail('kind:%s' % kind, 'an element of a %s' % kind, I, st, o, 'a type error')
    # dictionaries
    R.count('read_cases')
    I, res = run(lambda V: {'object': V.dict(), 'field': V.any('key')})
    hit = miss = 0
    mapt, key = I.mk('map', 'dict'), I.mk('v', 'key')
    for st in live(res):
        o = outcome(E, I, st, 'expr')
        pr = presence(I, st, mapt, key)
        if pr is None: fail('Dict:lookup', 'a dict', I, st, o, 'a lookup of the key')
        elif pr:
            hit += 1
            if o[0] != 'value' or not leaves(I, I.term(st, o[1]), {mapt}) or not leaves(I, I.term(st, o[1]), {key}): fail('Dict:present', 'a key that is present', I, st, o, 'the value stored under it')
        else:
            miss += 1
            if o != ('panic', 'IndexOutOfBounds'): fail('Dict:absent', 'a key that is absent', I, st, o, 'an out of bounds panic')
        if mutations(I, st): fail('Dict:changes', 'a dict', I, st, o, 'no change of it')
    if not hit or not miss: R.bad('read:Dict:cases', 'a dictionary lookup does not distinguish present and absent keys')
    # errors
    R.count('read_cases')
    I, res = run(lambda V: {'object': V.sym('Error', 'err'), 'field': V.any('key')})
    err = I.V.sym('Error', 'err')[3][0]
    ev = I.expand(State(), err)
    names = [x[0] for x in I.types[ev[1]]['v'][0]['f']]
    seen = set()
    for st in live(res):
        o = outcome(E, I, st, 'expr')
        eq = eq_facts(I, st, I.mk('v', 'key'))
        yes = [k for k, b in eq.items() if b]
        if yes and yes[0] in names:
            seen.add(yes[0])
            want = I.term(st, ev[3][names.index(yes[0])])
            if o[0] != 'value' or not leaves(I, I.term(st, o[1]), {want}): fail('Error:' + yes[0], 'field %s of an error' % yes[0], I, st, o, 'that field')
        elif o != ('panic', 'IndexOutOfBounds'): fail('Error:other', 'another field of an error', I, st, o, 'an out of bounds panic')
    if seen != {'description', 'context'}: R.bad('read:Error:fields', 'errors do not have exactly the fields description and context (%s)' % sorted(seen))

def writes(P, R, E, s, sizes):
    def fail(key, what, I, st, o, exp): R.bad('write:' + key, 'assigning %s %s, expected %s; %s' % (what, show(I, st, o), exp, fmt_path(I, st)))
    def vec(I, st, v): return content(I, st, v[3][0])
    for n in sizes:
        for ix in INDICES:
            R.count('write_cases')
            I, res = explore_with(E, s, lambda V: {'object': V.array([V.any('e%d' % i) for i in range(n)]), 'field': V.int(ix), 'right': V.any('new')})
            for st in live(res):
                R.count('write_paths')
                o = outcome(E, I, st, 'stmt')
                what = 'index %d of an array of %d elements' % (ix, n)
                c = vec(I, st, I.given['object'])
                got = [I.term(st, x) for x in c[3]] if c[0] == 'a' and c[2] == 'vec' else None
                want = [I.mk('v', 'e%d' % i) for i in range(n)]
                if 0 <= ix < n:
                    want[ix] = I.mk('v', 'new')
                    if o[0] != 'value' or vname(I, o[1]) != 'Nil': fail('Array', what, I, st, o, 'nil')
                elif o != ('panic', 'IndexOutOfBounds'): fail('Array:bounds', what, I, st, o, 'an out of bounds panic')
                if got != want: fail('Array:content', what + ' leaves %s and' % ([I.show(x, 3) for x in got] if got is not None else I.show(I.term(st, c), 6)), I, st, o, 'exactly that element to change')
    for kind in E.kinds:
        for fk in E.kinds:
            R.count('write_cases')
            I, res = explore_with(E, s, lambda V: {'object': V.sym(kind, 'obj') if kind != 'Dict' else V.dict(), 'field': V.sym(fk, 'key'), 'right': V.any('new')})
            for st in live(res):
                R.count('write_paths')
                o = outcome(E, I, st, 'stmt')
                what = 'an element of a %s with a %s key' % (kind, fk)
                mu = mutations(I, st)
                if kind == 'Array' and fk == 'Int': continue
                if kind == 'Dict':
                    ins = [e for e in st.events() if e[0] == 'call' and e[1].endswith('HashMap::<K, V, S, A>::insert')]
                    if o[0] != 'value' or vname(I, o[1]) != 'Nil': fail('Dict', what, I, st, o, 'nil')
                    elif len(ins) != 1 or len(mu) != 1 or not leaves(I, ins[0][3][0], {I.mk('map', 'dict')}) or ins[0][3][1] != I.term(st, I.given['field']) or ins[0][3][2] != I.mk('v', 'new'):
                        fail('Dict:insert', what, I, st, o, 'exactly one insertion of the value under the key')
                    continue
                exp = {'Array': 'TypeError', 'Error': 'AssignToReadonlyField'}.get(kind, 'TypeError')
                if o != ('panic', exp): fail(kind, what, I, st, o, exp)
                if mu: fail(kind + ':changes', what, I, st, o, 'no change of a container')
