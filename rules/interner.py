"""Names and symbols: a name is interned as its own bytes, and a symbol resolves to what was interned."""
from lib import *

KEEP = ('to_owned', 'as_ref', 'to_vec', 'into', 'from', 'borrow', 'deref', 'clone', 'as_slice', 'into_boxed_slice', 'as_bytes', 'into_vec')

def same_text(I, t, x, d=14):
    if t == x: return True
    if d <= 0: return False
    k = I.T.t[t]
    if k[0] in ('&', '*', 'as', 'boxed') or k[0] == 'slice' and len(k) == 2: return same_text(I, k[1], x, d - 1)
    if k[0] == 'call' and k[1].rsplit('::', 1)[-1] in KEEP and len(k[2]) == 1: return same_text(I, k[2][0], x, d - 1)
    if k[0] == 'agg' and len(k[3]) == 1 and 'Cow' in str(k[1]): return same_text(I, k[3][0], x, d - 1)
    return False

def check(P, R):
    n = 0
    items = [f for f in P.fns if f.get('local') and f['kind'] == 'item' and f.get('dk') != 'Closure' and f['args'] >= 2 and 'symbol::Interner' in P.types[f['locals'][1]]['s'] and f['n'].startswith('symbol::')]
    for fn in items:
        ret = P.types[fn['locals'][0]]['s']
        I = Interp(P, hooks=[ident_copy], max_visits=2, max_depth=12)
        if ret == 'symbol::Symbol':
            for st in I.run(fn, [('s', I.mk('arg', ('n', i)), fn['locals'][i]) for i in range(1, fn['args'] + 1)]):
                if st.end != 'return': continue
                n += 1; R.count('interned')
                t = I.term(st, st.ret)
                k = I.T.t[t]
                while k[0] in ('f', 'd') or k[0] == 'agg' and len(k[3]) == 1: t = k[1] if k[0] in ('f', 'd') else k[3][0]; k = I.T.t[t]
                if not (k[0] == 'call' and k[1].rsplit('::', 1)[-1] in ('intern', 'check_interned') and len(k[2]) == 2 and same_text(I, k[2][1], I.mk('arg', ('n', 2)))):
                    R.bad('interner:' + fn['n'].rsplit('::', 1)[-1], '%s does not give the symbol of exactly the name (%s)' % (fn['n'], I.show(t, 6)[:200]))
        elif ret.startswith('std::option::Option<&') and P.types[fn['locals'][2]]['s'] == 'symbol::Symbol':
            for st in I.run(fn, [('s', I.mk('arg', ('n', i)), fn['locals'][i]) for i in range(1, fn['args'] + 1)]):
                if st.end != 'return': continue
                n += 1; R.count('resolved')
                t = I.term(st, st.ret); k = I.T.t[t]
                if k[0] == 'agg' and not k[3] and any(I.T.t[q][0] == 'disc' and v == 0 for q, v in st.facts.items()): continue
                while k[0] in ('f', 'd') or k[0] == 'agg' and len(k[3]) == 1: t = k[1] if k[0] in ('f', 'd') else k[3][0]; k = I.T.t[t]
                sym = k[2][1] if k[0] == 'call' and len(k[2]) == 2 else None
                while sym is not None and I.T.t[sym][0] in ('f', '&', '*', 'd'): sym = I.T.t[sym][1]
                if not (k[0] == 'call' and k[1].rsplit('::', 1)[-1] == 'get' and sym == I.mk('arg', ('n', 2))):
                    R.bad('resolver', '%s does not give the name of exactly the symbol (%s)' % (fn['n'], I.show(t, 6)[:200]))
    if not n: R.bad('interner:none', 'no function turns names into symbols')
