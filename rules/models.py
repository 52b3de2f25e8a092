"""Transfer functions for the std / gc / intern functions the crate calls without a dumped body."""
import re

PURE_RE = re.compile(r'''^(?:
 core::slice::.*|std::slice::<impl\ \[T\]>::(?!sort).*|core::str::.*|std::str::.*|core::num::.*|core::f64::.*|std::char::.*|core::hash::.*x
 |std::vec::Vec::<.*>::(?:len|is_empty|new|with_capacity|into_boxed_slice|as_slice|last|first|iter)
 |<std::vec::Vec<.*>\ as\ (?:std::ops::Deref|std::convert::AsRef<.*>|std::ops::Index<.*>|std::default::Default|std::iter::IntoIterator)>::.*
 |<std::boxed::Box<.*>\ as\ (?:std::convert::AsRef<.*>|std::ops::Deref|std::default::Default|std::cmp::.*)>::.*
 |<std::(?:slice|vec|collections).*\ as\ std::iter::IntoIterator>::into_iter
 |std::collections::Hash(?:Map|Set)::<.*>::(?:len|is_empty|get|contains_key|contains|iter|new|keys|values)
 |std::string::.*|<std::string::String\ as.*|<std::borrow::Cow.*|std::borrow::.*
 |<std::rc::Rc<.*|<gc::Gc<.*\ as\ std::cmp::.*|std::ffi::.*|<std::ffi::.*|std::path::Path::(?:as_os_str|new|to_path_buf|parent|join)
 |<std::path::Path.*|std::path::PathBuf::into_os_string|std::path::<impl.*
 |<T\ as\ std::string::ToString>::to_string|std::fmt::Arguments.*|core::fmt::rt::.*|std::fmt::format|alloc::fmt::format
 |std::ptr::eq|std::mem::size_of|std::process::ExitStatus::.*|<std::process::ExitStatus\ as.*
 |<f64\ as.*|<i64\ as.*|<u8\ as.*|<intaglio::Symbol.*|intaglio::Symbol::.*|core::panicking::.*|std::array::.*|std::time::Duration::.*
 |std::collections::.*::Entry::<.*>::key|<std::collections::.*\ as\ std::cmp::.*|core::convert::.*|std::convert::.*
 |<.*\ as\ std::cmp::(?:PartialEq|Eq|Ord|PartialOrd).*>::.*|<.*\ as\ std::clone::Clone>::clone
 |bstr::ByteSlice::.*|<.*\ as\ std::default::Default>::default|std::hint::must_use|<.*\ as\ std::borrow::ToOwned>::to_owned|std::slice::<impl\ std::borrow::ToOwned.*
)$''', re.X)
_pc = {}
def is_pure(c):
    n = c.name
    r = _pc.get(n)
    if r is None:
        r = bool(PURE_RE.match(n))
        _pc[n] = r
    if not r: return False
    # anything taking &mut is not pure
    for ti in c.ats:
        if ti is not None:
            t = c.I.types[ti]
            if t['k'] == 'ref' and t.get('mut'): return False
    return True

def ptr_content(I, st, v):
    """value behind a (possibly symbolic) pointer value + lvalue"""
    if v[0] == 'r': return I.read(st, v[1], v[2])
    return None

def deref1(I, st, v, to=None):
    obj, path = I.deref(st, v, to)
    return obj, path, I.read(st, obj, path)

def pointee(I, ti):
    if ti is None: return None
    return I.types[ti].get('to')

def some(I, ti, v): return ('a', ti, 1, (v,))
def none(I, ti): return ('a', ti, 0, ())

def default_value(I, st, ti):
    """the default of a library type, if it is an empty one"""
    t = I.types[ti]
    s = t['s']
    if s.startswith(('std::vec::Vec<', 'std::collections::HashMap<')) or s == 'std::string::String': return ('a', ti, 'vec', ())
    if t['k'] in ('bool', 'int', 'uint'): return ('k', 0, ti)
    if s.startswith('std::option::Option<'): return ('a', ti, 0, ())
    if s.startswith(('gc::Gc<', 'std::boxed::Box<', 'std::rc::Rc<', 'std::sync::Arc<')):
        d = default_value(I, st, t['a'][0])
        return None if d is None else ('r', I.alloc(st, d), ())
    if s.startswith(('gc::GcCell<', 'std::cell::RefCell<')):
        d = default_value(I, st, t['a'][0])
        return None if d is None else ('a', ti, 'cell', (d,))
    return None

CELLS = ('gc::GcCell::<T>::', 'std::cell::RefCell::<T>::', 'std::cell::Cell::<T>::')
GUARDS = re.compile(r'^<(gc::GcCellRef(Mut)?|std::cell::Ref(Mut)?)<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$')
INTS = re.compile(r'^core::num::<impl ([iu])(\d+|size)>::')
SMART = re.compile(r'^<(gc::Gc|std::rc::Rc|std::sync::Arc|std::boxed::Box)<.*> as (std::ops::Deref(Mut)?|std::convert::As(Ref|Mut)<.*>|std::borrow::Borrow(Mut)?<.*>)>::\w+$')
VECDEREF = re.compile(r'^(<std::(vec::Vec|string::String|ffi::OsString|path::PathBuf)<?.*>? as (std::ops::Deref(Mut)?|std::convert::As(Ref|Mut)<.*>)>::\w+|std::vec::Vec::<.*>::as_(mut_)?slice|std::array::<impl std::convert::AsRef<.*>::as_ref|core::slice::<impl std::convert::AsRef<.*>::as_ref)$')
SMARTNEW = {'std::boxed::Box::<T>::new', 'gc::Gc::<T>::new', 'std::rc::Rc::<T>::new', 'std::sync::Arc::<T>::new'}
CELLNEW = {'gc::GcCell::<T>::new', 'std::cell::RefCell::<T>::new', 'std::cell::Cell::<T>::new'}

def drive(I, st, obj, ti, body, done, left, line):
    """follow an iterator: body(st, item, cont) per item (cont(st) asks for the next one), done(st) at its end.
    Continuation passing; every callback returns a list of states (or None for "continue with st")."""
    oti = I.P.opt_of_next.get(ti)
    def on_next(I, s, v):
        if v[0] == 's':
            t = I.types[v[2]]
            if t['k'] != 'enum': s.end = 'cut'; I.stats['cut'] += 1; return [s]
            out = []
            for s2, vi, v2 in I.split_variants(s, v, v[2]):
                r = on_next(I, s2, v2)
                out += [s2] if r is None else r
            return out
        if v[2] == 0: return done(s)
        if left <= 0:
            s.end = 'cut'; I.stats['cut'] += 1
            return [s]
        return body(s, v[3][0], lambda s2: drive(I, s2, obj, ti, body, done, left - 1, line))
    v = I.obj_value(st, obj)
    if v[0] == 'a' and v[2] == 'list':
        if not v[3]: return done(st)
        st.mem[obj] = ('a', v[1], 'list', v[3][1:])
        return body(st, v[3][0], lambda s2: drive(I, s2, obj, ti, body, done, left, line))
    rg = const_range(I, st, v)
    if rg is not None and rg[1] - rg[0] <= 64:
        st.mem[obj] = ('a', v[1], 'list', tuple(('k', i, rg[2]) for i in range(rg[0], rg[1])))
        return drive(I, st, obj, ti, body, done, left, line)
    fid = I.P.next_of.get(ti)
    if fid is not None:
        fn = I.P.fns[fid]
        return I.call(st, {'p': fn['n'], 'm': 'next', 'decl': 'std::iter::Iterator::next', 'id': fid, 'krate': fn.get('krate')}, [('r', obj, ())], [None], None, None, fn['locals'][0], line, on_next)
    if v[0] == 's':
        # element type unknown: option of an opaque item
        t = I.mk('next', v[1])
        st.mem[obj] = ('s', I.mk('after', t), v[2])
        out = []
        tm = I.mk('disc', t, ('n', I.opt_ti()))
        for vi in (0, 1):
            s2 = st.copy()
            if I.assume(s2, tm, vi):
                r = on_next(I, s2, ('a', I.opt_ti(), vi, (('s', I.mk('f', I.mk('d', t, ('n', 1)), ('n', 0)), item_type(I, ti)),) if vi else ()))
                out += [s2] if r is None else r
        return out
    st.end = 'cut'; I.stats['cut'] += 1
    return [st]

def item_type(I, ti):
    t = I.types[ti]
    a = t.get('a') or []
    p = t.get('p', '')
    if p.endswith('slice::Iter') or p.endswith('slice::IterMut'):
        # a reference to the element
        for i, x in enumerate(I.types):
            if x and x['k'] == 'ref' and x.get('to') == a[0] and bool(x.get('mut')) == p.endswith('Mut'): return i
    return a[0] if a else I.unit_ti

def from_iter(I, st, c):
    """FromIterator / collect into a vector, boxed slice, Result/Option of one, or an opaque collection"""
    ti = c.ats[0]
    if ti is None: return None
    if ti not in I.P.next_of and not (c.args[0][0] == 'a' and c.args[0][2] == 'list'): return None
    dti = c.dti
    dt = I.types[dti]['s']
    obj = I.alloc(st, c.args[0])
    acc = []
    def build(s, items, d):
        ds = I.types[d]['s']
        if ds.startswith('std::vec::Vec<'): return ('a', d, 'vec', tuple(items))
        if ds.startswith('std::boxed::Box<['): return ('r', I.alloc(s, ('a', None, 'vec', tuple(items))), ())
        if ds == '()': return I.unit()
        return I.sym(d, 'collected', ds.split('<')[0], tuple(I.term(s, x, 10) for x in items))
    def finish(s, v):
        if c.k is not None: return c.k(I, s, v)
        I.ret_to(s, c.dest, c.target, v)
        return None
    wrap = None
    for w in ('std::result::Result<', 'std::option::Option<'):
        if dt.startswith(w): wrap = w
    if wrap:
        inner = I.types[dti]['v'][0 if 'result' in wrap else 1]['f'][0][1]
    def go(items):
        def body(s, item, cont):
            if not wrap: return resume(s, items + [item])
            def with_item(s, it):
                okv = 0 if 'result' in wrap else 1
                if it[2] == okv: return resume(s, items + [it[3][0]])
                return finish(s, ('a', dti, it[2], it[3]))
            if item[0] == 's':
                out = []
                if I.types[item[2]]['k'] != 'enum': s.end = 'cut'; return [s]
                for s2, vi, v2 in I.split_variants(s, item, item[2]):
                    r = with_item(s2, v2)
                    out += [s2] if r is None else r
                return out
            return with_item(s, item)
        def resume(s, its):
            s_items = its
            b, d = go(its)
            return drive(I, s, obj, ti, b, d, I.max_visits - len(its), c.line)
        def done(s):
            if wrap: return finish(s, ('a', dti, 0 if 'result' in wrap else 1, (build(s, items, inner),)))
            return finish(s, build(s, items, dti))
        return body, done
    b, d = go([])
    r = drive(I, st, obj, ti, b, d, I.max_visits, c.line)
    return 'entered' if r is None else ('states', r)

def for_each(I, st, c):
    ti = c.ats[0]
    if ti not in I.P.next_of and not (c.args[0][0] == 'a' and c.args[0][2] == 'list'): return None
    obj = I.alloc(st, c.args[0])
    fobj = I.alloc(st, c.args[1])
    def body(s, item, cont):
        return I.invoke(s, ('r', fobj, ()), [item], None, None, None, c.line, lambda I, s2, v: cont(s2))
    def done(s):
        if c.k is not None: return c.k(I, s, I.unit())
        I.ret_to(s, c.dest, c.target, I.unit())
        return None
    r = drive(I, st, obj, ti, body, done, I.max_visits, c.line)
    return 'entered' if r is None else ('states', r)

def internal(I, st, c):
    """fold, any, all, find, find_map, position, try_for_each: the iterator is followed item by item"""
    m = c.m
    ti = c.ats[0]
    back = None
    if ti is None: return None
    if m in ('fold', 'count', 'last'): obj = I.alloc(st, c.args[0])
    else:
        to = pointee(I, ti)
        if to is None: return None
        obj, path = I.deref(st, c.args[0], to)
        if path:
            v = I.read(st, obj, path); back = (obj, path); obj = I.alloc(st, v)
        ti = to
    v = I.obj_value(st, obj)
    if ti not in I.P.next_of and not (v[0] == 'a' and v[2] == 'list'): return None
    fobj = I.alloc(st, c.args[-1]) if m not in ('count', 'last') else None
    rt = I.types[c.dti] if c.dti is not None else None
    def finish(s, v):
        if back is not None: I.write(s, back[0], back[1], I.obj_value(s, obj))
        if c.k is not None: return c.k(I, s, v)
        I.ret_to(s, c.dest, c.target, v)
        return None
    def call(s, args, k): return I.invoke(s, ('r', fobj, ()), args, None, None, None, c.line, k)
    def boolsplit(s, v, on):
        out = []
        for s2, y in I.decide(s, v):
            r = on(s2, y); out += [s2] if r is None else r
        return out
    def go(acc, i):
        def step(s, acc2=None):
            b, d = go(acc2, i + 1)
            return drive(I, s, obj, ti, b, d, I.max_visits - i, c.line)
        def body(s, item, cont):
            if m == 'count': return step(s)
            if m == 'last': return step(s, item)
            if m == 'fold': return call(s, [acc, item], lambda I, s2, v: step(s2, v))
            if m in ('any', 'all', 'position'):
                def on(s2, y):
                    if m == 'position': return finish(s2, ('a', c.dti, 1, (('k', i, I.usize_ti),))) if y else step(s2)
                    return finish(s2, I.boolv(m == 'any')) if bool(y) == (m == 'any') else step(s2)
                return call(s, [item], lambda I, s2, v: boolsplit(s2, v, on))
            if m == 'find':
                o = I.alloc(s, item)
                return call(s, [('r', o, ())], lambda I, s2, v: boolsplit(s2, v, lambda s3, y: finish(s3, ('a', c.dti, 1, (item,))) if y else step(s3)))
            def opt(I, s2, v):
                cont_v = 0 if m == 'find_map' or 'result' in rt['s'].split('<')[0] else 1
                if v[0] == 'a': cs = [(s2, v[2], v)]
                elif v[0] == 's' and I.types[v[2]]['k'] == 'enum': cs = I.split_variants(s2, v, v[2])
                else: s2.end = 'cut'; return [s2]
                out = []
                for s3, vi, v3 in cs:
                    r = step(s3) if vi == cont_v else finish(s3, ('a', c.dti, vi, v3[3]))
                    out += [s3] if r is None else r
                return out
            return call(s, [item], opt)
        def done(s):
            if m == 'fold': return finish(s, acc)
            if m == 'count': return finish(s, ('k', i, I.usize_ti))
            if m == 'last': return finish(s, ('a', c.dti, 1, (acc,)) if acc is not None else ('a', c.dti, 0, ()))
            if m in ('any', 'all'): return finish(s, I.boolv(m == 'all'))
            if m == 'try_for_each':
                okv = 0 if 'result' in rt['s'].split('<')[0] else 1
                return finish(s, ('a', c.dti, okv, (I.unit(),)))
            return finish(s, ('a', c.dti, 0, ()))
        return body, done
    b, d = go(c.args[1] if m == 'fold' else None, 0)
    r = drive(I, st, obj, ti, b, d, I.max_visits, c.line)
    return 'entered' if r is None else ('states', r)

def extend_vec(I, st, c):
    """Vec::extend(iterator)"""
    ti = c.ats[1]
    src = c.args[1]
    if src[0] == 'a' and src[2] in ('vec', 'array', 'list'):
        src = ('a', src[1], 'list', src[3])
    elif ti not in I.P.next_of: return None
    obj = I.alloc(st, src)
    vobj, vpath = I.deref(st, c.args[0], pointee(I, c.ats[0]))
    def body(s, item, cont):
        v = I.read(s, vobj, vpath)
        s.event(('push', vobj, vpath, item, s.frames[-1].fn['n'], c.line, c.ats[0]))
        if v[0] == 'a' and v[2] == 'vec' and len(v[3]) < 12: I.write(s, vobj, vpath, ('a', v[1], 'vec', v[3] + (item,)))
        else: I.write(s, vobj, vpath, I.sym(pointee(I, c.ats[0]), 'pushed', I.term(s, v), I.term(s, item)))
        return cont(s)
    def done(s):
        if c.k is not None: return c.k(I, s, I.unit())
        I.ret_to(s, c.dest, c.target, I.unit())
        return None
    r = drive(I, st, obj, ti, body, done, I.max_visits, c.line)
    return 'entered' if r is None else ('states', r)

def range_bounds(I, st, v, ln):
    """(start, end) of a range value over a sequence of known length, or None"""
    if v[0] != 'a' or v[1] is None: return None
    s = I.types[v[1]]['s']
    f = [I.norm(st, x) for x in v[3]]
    def k(x): return x[1] if x[0] == 'k' else None
    if s.startswith('std::ops::RangeFrom<'): r = (k(f[0]), ln)
    elif s.startswith('std::ops::RangeToInclusive<'): r = (0, None if k(f[0]) is None else k(f[0]) + 1)
    elif s.startswith('std::ops::RangeTo<'): r = (0, k(f[0]))
    elif s.startswith('std::ops::RangeInclusive<'): r = (k(f[0]), None if k(f[1]) is None else k(f[1]) + 1)
    elif s.startswith('std::ops::Range<'): r = (k(f[0]), k(f[1]))
    elif s == 'std::ops::RangeFull': r = (0, ln)
    else: return None
    if r[0] is None or r[1] is None: return None
    return r

def const_range(I, st, v, byref=False):
    """(start, end, element type) of a half-open range with known bounds"""
    if v[0] == 'a' and v[1] is not None and I.types[v[1]]['s'].startswith('std::ops::RangeInclusive<') and len(v[3]) == 3:
        a, b, x = (I.norm(st, y) for y in v[3])
        if a[0] != 'k' or b[0] != 'k' or x != I.boolv(False) and (x[0] != 'k' or x[1]): return None
        lo, hi = I.signed(a[1], a[2]), I.signed(b[1], b[2])
        return (lo, max(hi + 1, lo), a[2]) if lo >= 0 and not byref else None
    if v[0] != 'a' or v[1] is None or not I.types[v[1]]['s'].startswith('std::ops::Range<') or len(v[3]) != 2: return None
    a, b = I.norm(st, v[3][0]), I.norm(st, v[3][1])
    if a[0] != 'k' or b[0] != 'k': return None
    lo, hi = I.signed(a[1], a[2]), I.signed(b[1], b[2])
    return (lo, hi, a[2]) if lo >= 0 else None

def index_range(I, st, c):
    obj, path, v = deref1(I, st, c.args[0], pointee(I, c.ats[0]))
    if v[0] != 'a' or v[2] not in ('vec', 'array'): return None
    ix = I.norm(st, c.args[1])
    if ix[0] == 'k':
        if ix[1] < len(v[3]): return [(st, ('r', obj, path + (('x', ix, pointee(I, c.dti) if c.dti is not None else I.unit_ti),)))]
        st.event(('rpanic', 'index', st.frames[-1].fn['n'], c.line)); st.end = 'rpanic'
        return [(st, None)]
    b = range_bounds(I, st, ix, len(v[3]))
    if b is None: return None
    if not (0 <= b[0] <= b[1] <= len(v[3])):
        st.event(('rpanic', 'slice', st.frames[-1].fn['n'], c.line)); st.end = 'rpanic'
        return [(st, None)]
    return [(st, ('r', obj, path + (('sub', b[0], b[1], False),)))]

def vec_op(I, st, c, m):
    a = c.args
    obj, path, v = deref1(I, st, a[0], pointee(I, c.ats[0]))
    if v[0] != 'a' or v[2] != 'vec': return None
    el = v[3]
    def put(els): I.write(st, obj, path, ('a', v[1], 'vec', tuple(els)))
    x = I.norm(st, a[1]) if len(a) > 1 else None
    if m == 'clear': put(()); return [(st, I.unit())]
    if m == 'extend_from_slice' and x is not None:
        y = x
        for _ in range(3):
            if y[0] == 'r': y = I.read(st, y[1], y[2])
        if y[0] == 'a' and y[2] in ('vec', 'array') and all(z[0] in ('k', 's') for z in y[3]): put(el + tuple(y[3])); return [(st, I.unit())]
        return None
    if m == 'pop':
        if not el: return [(st, none(I, c.dti))]
        put(el[:-1]); return [(st, some(I, c.dti, el[-1]))]
    if m == 'truncate' and x[0] == 'k':
        put(el[:x[1]]); return [(st, I.unit())]
    if m == 'split_off' and x[0] == 'k' and x[1] <= len(el):
        put(el[:x[1]]); return [(st, ('a', c.dti, 'vec', el[x[1]:]))]
    if m == 'remove' and x[0] == 'k' and x[1] < len(el):
        put(el[:x[1]] + el[x[1] + 1:]); return [(st, el[x[1]])]
    if m == 'insert' and x[0] == 'k' and x[1] <= len(el):
        put(el[:x[1]] + (a[2],) + el[x[1]:]); return [(st, I.unit())]
    if m == 'extend_from_within':
        b = range_bounds(I, st, a[1], len(el))
        if b is None or not (0 <= b[0] <= b[1] <= len(el)) or any(y[0] == 'r' for y in el[b[0]:b[1]]): return None
        put(el + el[b[0]:b[1]]); return [(st, I.unit())]
    if m == 'drain':
        b = range_bounds(I, st, a[1], len(el))
        if b is None or not (0 <= b[0] <= b[1] <= len(el)): return None
        put(el[:b[0]] + el[b[1]:])
        return [(st, ('a', c.dti, 'list', el[b[0]:b[1]]))]
    return None

def resize_with(I, st, c):
    obj, path, v = deref1(I, st, c.args[0], pointee(I, c.ats[0]))
    x = I.norm(st, c.args[1])
    if v[0] != 'a' or v[2] != 'vec' or x[0] != 'k' or x[1] > len(v[3]) + 12: return None
    fobj = I.alloc(st, c.args[2])
    def go(s, els):
        if len(els) >= x[1]:
            I.write(s, obj, path, ('a', v[1], 'vec', tuple(els[:x[1]])))
            if c.k is not None: return c.k(I, s, I.unit())
            I.ret_to(s, c.dest, c.target, I.unit())
            return None
        return I.invoke(s, ('r', fobj, ()), [], None, None, None, c.line, lambda I, s2, r: go(s2, els + (r,)))
    r = go(st, v[3])
    return 'entered' if r is None else ('states', r)

def int_try(I, st, c):
    """checked conversion between integer types"""
    fti = c.ats[0]
    rt = I.types[c.dti]
    if fti is None or rt['k'] != 'enum' or len(rt['v']) != 2: return None
    tti = rt['v'][0]['f'][0][1]
    ft, tt = I.types[fti], I.types[tti]
    if ft['k'] not in ('int', 'uint') or tt['k'] not in ('int', 'uint'): return None
    b = tt.get('b', 64)
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if tt['k'] == 'int' else (0, (1 << b) - 1)
    x = c.args[0]
    fb = ft.get('b', 64)
    flo, fhi = (-(1 << (fb - 1)), (1 << (fb - 1)) - 1) if ft['k'] == 'int' else (0, (1 << fb) - 1)
    ok, bad = [st], []
    def k(v): return ('k', v & ((1 << fb) - 1), fti)
    if lo > flo:
        nxt = []
        for s in ok:
            for s2, y in I.decide(s, I.binop(s, 'Lt', x, k(lo), fti)): (bad if y else nxt).append(s2)
        ok = nxt
    if hi < fhi:
        nxt = []
        for s in ok:
            for s2, y in I.decide(s, I.binop(s, 'Lt', k(hi), x, fti)): (bad if y else nxt).append(s2)
        ok = nxt
    eti = rt['v'][1]['f'][0][1]
    return [(s, ('a', c.dti, 0, (I.cast(s, 'IntToInt', x, fti, tti),))) for s in ok] + [(s, ('a', c.dti, 1, (I.sym(eti, 'out of range', I.term(s, x)),))) for s in bad]

def MODELS(I, st, c):
    n = c.name
    a = c.args
    decl = c.info.get('decl', '')
    m = c.m
    if m in ('collect', 'from_iter') and decl.endswith(('Iterator::collect', 'FromIterator::from_iter')) and len(a) == 1:
        r = from_iter(I, st, c)
        if r is not None: return r
    if m == 'for_each' and decl.endswith('Iterator::for_each'):
        r = for_each(I, st, c)
        if r is not None: return r
    if m in ('fold', 'any', 'all', 'find', 'find_map', 'position', 'try_for_each', 'count', 'last') and decl.endswith('Iterator::' + m):
        r = internal(I, st, c)
        if r is not None: return r
    if m == 'extend' and decl.endswith('Extend::extend') and c.ats[0] is not None and I.types[c.ats[0]].get('to') is not None and I.types[I.types[c.ats[0]]['to']]['s'].startswith('std::vec::Vec<'):
        r = extend_vec(I, st, c)
        if r is not None: return r
    if m in ('try_from', 'try_into') and len(a) == 1 and decl.endswith(('TryFrom::try_from', 'TryInto::try_into')):
        r = int_try(I, st, c)
        if r is not None: return r
    # ---- constructors used as functions
    if m and m[0].isupper() and c.info.get('id') is None and c.dti is not None and a:
        t = I.types[c.dti]
        if t['k'] == 'enum' and decl.endswith('::' + m):
            for vi, v in enumerate(t['v']):
                if v['n'] == m and len(v['f']) == len(a): return [(st, ('a', c.dti, vi, tuple(a)))]
        if t['k'] == 'struct' and t.get('v') and t.get('p', '').endswith('::' + m) and decl == t.get('p') and len(t['v'][0]['f']) == len(a): return [(st, ('a', c.dti, 0, tuple(a)))]
    # ---- calling function values
    if decl in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call',
                'core::ops::FnOnce::call_once', 'core::ops::FnMut::call_mut', 'core::ops::Fn::call'):
        tup = a[1]
        if tup[0] == 's': tup = I.expand(st, tup)
        targs = list(tup[3]) if tup[0] == 'a' else [tup]
        r = I.invoke(st, a[0], targs, c.dest, c.target, c.dti, c.line, c.k)
        if r is None: return 'entered'
        return ('states', r)
    if n in SMARTNEW:
        return [(st, ('r', I.alloc(st, a[0]), ()))]
    if m == 'default' and not a and c.dti is not None and c.info.get('id') is None and I.types[c.dti]['s'].startswith(('gc::Gc<gc::GcCell<', 'gc::GcCell<', 'std::cell::RefCell<')):
        d = default_value(I, st, c.dti)
        if d is not None: return [(st, d)]
    if m == 'default' and not a and c.dti is not None and c.info.get('id') is None and I.types[c.dti]['s'].startswith(('std::boxed::Box<[', 'std::vec::Vec<')):
        if I.types[c.dti]['s'].startswith('std::vec'): return [(st, ('a', c.dti, 'vec', ()))]
        return [(st, ('r', I.alloc(st, ('a', None, 'array', ())), ()))]
    if n == 'std::boxed::Box::<T>::new_uninit' and c.dti is not None:
        return [(st, ('r', I.alloc(st, ('a', I.types[c.dti]['a'][0], 0, (('u',), ('a', None, 0, (('u',),))))), ()))]
    if m in ('from', 'into') and len(a) == 1 and a[0][0] == 'a' and a[0][2] == 'array' and c.info.get('id') is None and c.dti is not None:
        ds = I.types[c.dti]['s']
        if ds.startswith(('std::boxed::Box<[', 'std::rc::Rc<[')): return [(st, ('r', I.alloc(st, a[0]), ()))]
        if ds.startswith('std::vec::Vec<'): return [(st, ('a', c.dti, 'vec', a[0][3]))]
    if n in CELLNEW:
        return [(st, ('a', c.dti, 'cell', (a[0],)))]
    if n.startswith(CELLS):
        if m in ('borrow', 'borrow_mut', 'get_mut', 'as_ptr'):
            obj, path, v = deref1(I, st, a[0], pointee(I, c.ats[0]))
            st.event(('cell', m, obj, path, c.line))
            return [(st, ('r', obj, path + ('cell',)))]
        if m == 'into_inner':
            return [(st, I.proj(st, a[0], 'cell'))]
        if m in ('set', 'replace'):
            obj, path, v = deref1(I, st, a[0], pointee(I, c.ats[0]))
            old = I.proj(st, v, 'cell')
            I.write(st, obj, path + ('cell',), a[1])
            return [(st, I.unit() if m == 'set' else old)]
        if m == 'get':
            obj, path, v = deref1(I, st, a[0], pointee(I, c.ats[0]))
            return [(st, I.proj(st, v, 'cell'))]
    if GUARDS.match(n):
        obj, path, v = deref1(I, st, a[0])
        if v[0] in ('r', 'b'): return [(st, v)]
        if v[0] == 's': return [(st, ('s', I.mk('guard', v[1]), c.dti))]
    if n == "<std::borrow::Cow<'_, B> as std::ops::Deref>::deref":
        obj, path, v = deref1(I, st, a[0])
        return [(st, I.sym(c.dti, 'cowref', I.term(st, v)))]
    if SMART.match(n):
        obj, path, v = deref1(I, st, a[0])
        if v[0] in ('r', 'b'): return [(st, v)]
        if v[0] == 's': return [(st, ('s', v[1], c.dti))]
    if m == 'clone' and re.match(r'^<(gc::Gc|std::rc::Rc|std::sync::Arc)<', n):
        obj, path, v = deref1(I, st, a[0])
        return [(st, v)]
    if m in ('clone', 'to_owned', 'cloned') and c.info.get('id') is None and len(a) == 1:
        # value semantics: a clone is the same (immutable) value
        if a[0][0] == 'b': return [(st, I.sym(c.dti, 'owned', I.mk('bytes', a[0][1])))]
        if a[0][0] in ('r', 's'):
            obj, path, v = deref1(I, st, a[0], pointee(I, c.ats[0]))
            if v[0] != 'u' and v[0] != 'bytes': return [(st, v)]
    if VECDEREF.match(n):
        obj, path, v = deref1(I, st, a[0], pointee(I, c.ats[0]))
        if v[0] == 's' and not I.types[c.ats[0]].get('mut'):
            return [(st, ('s', I.mk('slice', v[1]), c.dti))]
        return [(st, ('r', obj, path))]
    # ---- vectors known element by element
    if n in ('std::vec::Vec::<T>::new', '<std::vec::Vec<T> as std::default::Default>::default', 'std::vec::Vec::<T>::with_capacity'):
        return [(st, ('a', c.dti, 'vec', ()))]
    if n == 'std::vec::Vec::<T, A>::push':
        obj, path, v = deref1(I, st, a[0], pointee(I, c.ats[0]))
        st.event(('push', obj, path, a[1], st.frames[-1].fn['n'], c.line, c.ats[0]))
        if v[0] == 'a' and v[2] == 'vec' and len(v[3]) < 12:
            I.write(st, obj, path, ('a', v[1], 'vec', v[3] + (a[1],)))
            return [(st, I.unit())]
        ti = pointee(I, c.ats[0])
        I.write(st, obj, path, I.sym(ti, 'pushed', I.term(st, v), I.term(st, a[1])))
        return [(st, I.unit())]
    if n == 'std::vec::Vec::<T, A>::resize_with' and a[0][0] in ('r', 's'):
        r = resize_with(I, st, c)
        if r is not None: return r
    if n.startswith('std::vec::Vec::<T') and m in ('drain', 'truncate', 'split_off', 'pop', 'clear', 'remove', 'insert', 'append', 'swap_remove', 'extend_from_within', 'extend_from_slice') and a and a[0][0] in ('r', 's'):
        r = vec_op(I, st, c, m)
        if r is not None: return r
    if m in ('index', 'index_mut') and re.match(r'^<(std::vec::Vec<.*>|\[T\]|\[.*\]) as std::ops::Index', n) or (m in ('index', 'index_mut') and n.startswith(('std::slice::index::', 'core::slice::index::'))):
        r = index_range(I, st, c)
        if r is not None: return r
    if n in ('std::slice::<impl [T]>::into_vec', 'std::boxed::box_assume_init_into_vec_unsafe'):
        v = ptr_content(I, st, a[0])
        if v is not None and v[0] == 'a' and v[2] == 'cellu': v = v[3][0]
        if v is not None and v[0] == 'a':
            while v[0] == 'a' and v[2] not in ('array', 'vec') and len(v[3]) >= 1: v = v[3][-1]
        if v is not None and v[0] == 'a' and v[2] in ('array', 'vec'): return [(st, ('a', c.dti, 'vec', v[3]))]
    if n == '<std::vec::Vec<T, A> as std::convert::From<std::boxed::Box<[T], A>>>::from' or (m == 'into' and len(a) == 1 and c.dti is not None and c.ats[0] is not None
            and I.types[c.ats[0]]['s'].startswith('std::boxed::Box<[') and I.types[c.dti]['s'].startswith('std::vec::Vec<')):
        v = ptr_content(I, st, a[0])
        if v is not None and v[0] == 'a' and v[2] in ('array', 'vec'): return [(st, ('a', c.dti, 'vec', v[3]))]
    if n == 'std::vec::Vec::<T, A>::into_boxed_slice' or (m in ('into', 'from') and len(a) == 1 and c.dti is not None and c.ats[0] is not None
            and I.types[c.ats[0]]['s'].startswith('std::vec::Vec<') and I.types[c.dti]['s'].startswith('std::boxed::Box<[')):
        if a[0][0] == 'a': return [(st, ('r', I.alloc(st, a[0]), ()))]
        if a[0][0] == 's': return [(st, ('s', I.mk('boxed', a[0][1]), c.dti))]
    if m == 'is_empty' and re.match(r'^(core::slice|std::vec::Vec|core::str|std::collections|std::string)', n):
        l = I.len_of(st, a[0])
        return [(st, I.binop(st, 'Eq', l, ('k', 0, I.usize_ti), I.usize_ti))]
    if m == 'len' and re.match(r'^(core::slice|std::vec::Vec|core::str|std::collections|std::string)', n):
        return [(st, I.len_of(st, a[0]))]
    if n == 'core::str::<impl str>::as_bytes' or n == 'core::str::<impl str>::as_ptr':
        return [(st, a[0])]
    if m in ('checked_add', 'checked_sub', 'checked_mul') and n.startswith('core::num::<impl ') and len(a) == 2 and c.dti is not None:
        x, y = I.norm(st, a[0]), I.norm(st, a[1])
        w = INTS.match(n)
        if x[0] == 'k' and y[0] == 'k' and w:
            bits = {'size': 64}.get(w.group(2), None) or int(w.group(2))
            def sg(v): return v - (1 << bits) if w.group(1) == 'i' and v >> (bits - 1) & 1 else v
            p, q = sg(x[1] & ((1 << bits) - 1)), sg(y[1] & ((1 << bits) - 1))
            r = p + q if m == 'checked_add' else p - q if m == 'checked_sub' else p * q
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if w.group(1) == 'i' else (0, (1 << bits) - 1)
            if not lo <= r <= hi: return [(st, none(I, c.dti))]
            return [(st, some(I, c.dti, ('k', r & ((1 << bits) - 1), x[2])))]
    if n.startswith('core::slice::<impl [T]>::') and m in ('get', 'get_mut', 'first', 'last', 'first_mut', 'last_mut') and a[0][0] == 'r':
        v = I.read(st, a[0][1], a[0][2])
        if v[0] == 'a' and v[2] in ('vec', 'array'):
            if m.startswith('first'): ix = 0
            elif m.startswith('last'): ix = len(v[3]) - 1
            else:
                x = I.norm(st, a[1])
                ix = x[1] if x[0] == 'k' else None
                if x[0] == 'a':
                    b = range_bounds(I, st, x, len(v[3]))
                    if b is not None:
                        if not (0 <= b[0] <= b[1] <= len(v[3])): return [(st, none(I, c.dti))]
                        return [(st, some(I, c.dti, ('r', a[0][1], a[0][2] + (('sub', b[0], b[1], False),))))]
            if ix is not None:
                if not (0 <= ix < len(v[3])): return [(st, none(I, c.dti))]
                fti = I.types[c.dti]['v'][1]['f'][0][1] if c.dti is not None and I.types[c.dti].get('v') else None
                return [(st, some(I, c.dti, ('r', a[0][1], a[0][2] + (('x', ('k', ix, I.usize_ti), pointee(I, fti)),))))]
    if n.startswith('core::slice::<impl [T]>::') and m in ('split_first', 'split_last', 'split_first_mut', 'split_last_mut', 'split_at', 'split_at_mut') and a[0][0] == 'r' and c.dti is not None:
        v = I.read(st, a[0][1], a[0][2])
        if v[0] == 'a' and v[2] in ('vec', 'array'):
            k, tt = len(v[3]), c.dti
            def sub(lo, hi): return ('r', a[0][1], a[0][2] + (('sub', lo, hi, False),))
            if m.startswith('split_at'):
                x = I.norm(st, a[1])
                if x[0] == 'k':
                    if x[1] <= k: return [(st, ('a', tt, 0, (sub(0, x[1]), sub(x[1], k))))]
                    st.event(('rpanic', 'split_at', st.frames[-1].fn['n'], c.line)); st.end = 'rpanic'
                    return [(st, None)]
            else:
                if k == 0: return [(st, none(I, c.dti))]
                tt = I.types[c.dti]['v'][1]['f'][0][1] if I.types[c.dti].get('v') else None
                eti = pointee(I, I.types[tt]['f'][0]) if tt is not None and I.types[tt].get('f') else None
                ix, rest = (0, sub(1, k)) if 'first' in m else (k - 1, sub(0, k - 1))
                return [(st, some(I, c.dti, ('a', tt, 0, (('r', a[0][1], a[0][2] + (('x', ('k', ix, I.usize_ti), eti),)), rest))))]
    # ---- memory
    if n in ('std::mem::replace', 'core::mem::replace'):
        obj, path, v = deref1(I, st, a[0], pointee(I, c.ats[0]))
        I.write(st, obj, path, a[1])
        return [(st, v)]
    if n in ('std::mem::take', 'core::mem::take'):
        obj, path, v = deref1(I, st, a[0], pointee(I, c.ats[0]))
        t = I.types[c.dti]
        if t['s'].startswith('std::vec::Vec<'): d = ('a', c.dti, 'vec', ())
        elif t['k'] == 'bool': d = ('k', 0, c.dti)
        elif t['s'].startswith('std::option::Option<'): d = ('a', c.dti, 0, ())
        else: d = I.sym(c.dti, 'default', t['s'])
        I.write(st, obj, path, d)
        return [(st, v)]
    if n in ('std::mem::swap', 'core::mem::swap'):
        o1, p1, v1 = deref1(I, st, a[0]); o2, p2, v2 = deref1(I, st, a[1])
        I.write(st, o1, p1, v2); I.write(st, o2, p2, v1)
        return [(st, I.unit())]
    if n in ('std::mem::drop', 'core::mem::drop'):
        return [(st, I.unit())]
    if n.endswith('intrinsics::discriminant_value') or n.endswith('mem::discriminant'):
        obj, path, v = deref1(I, st, a[0], pointee(I, c.ats[0]))
        ti = pointee(I, c.ats[0])
        if ti is None and v[0] in ('a',): ti = v[1]
        if ti is not None: return [(st, I.discr(st, v, ti))]
    if n == 'std::hint::must_use': return [(st, a[0])]
    # ---- thread locals: LocalKey::with(key, closure)
    if n == 'std::thread::LocalKey::<T>::with':
        key = deref1(I, st, a[0])
        keyt = I.term(st, a[0])
        obj = ('h', I.mk('tls', keyt), None)
        # pointee type: type argument of LocalKey
        ti = I.types[pointee(I, c.ats[0])]['a'][0] if c.ats[0] is not None else I.unit_ti
        arg = ('s', I.mk('tlsref', keyt), I.unit_ti)
        r = I.invoke(st, a[1], [('r', ('h', I.mk('tls', keyt), ti), ())], c.dest, c.target, c.dti, c.line, c.k)
        return 'entered' if r is None else ('states', r)
    if n == 'std::ops::RangeInclusive::<Idx>::new' and len(a) == 2 and all(I.norm(st, x)[0] == 'k' for x in a):
        return [(st, ('a', c.dti, 0, (a[0], a[1], I.boolv(False))))]
    # ---- iterators over explicit element lists
    if n in ('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut') :
        if a[0][0] == 'b' and len(a[0][1]) <= 16 and c.info.get('id') is None and 'u8' in I.P.ty_by_s:
            # the bytes of a constant
            u8 = I.P.ty_by_s['u8']
            ob = I.alloc(st, ('a', None, 'array', tuple(('k', x, u8) for x in a[0][1])))
            return [(st, ('a', c.dti, 'list', tuple(('r', ob, (('x', ('k', i, I.usize_ti), u8),)) for i in range(len(a[0][1])))))]
        v = ptr_content(I, st, a[0])
        if v is not None and v[0] == 'a' and v[2] in ('vec', 'array') and a[0][0] == 'r':
            return [(st, ('a', c.dti, 'list', tuple(('r', a[0][1], a[0][2] + (('x', ('k', i, I.usize_ti), I.types[c.dti]['a'][0] if I.types[c.dti].get('a') else I.unit_ti),)) for i in range(len(v[3])))))]
        if v is not None: return [(st, I.sym(c.dti, 'iter', I.term(st, v)))]
        return [(st, I.sym(c.dti, 'iter', I.mk('*', I.term(st, a[0]))))]
    if m == 'into_iter' and c.info.get('id') is None and len(a) == 1:
        v = a[0]
        if v[0] == 'a' and v[2] in ('vec', 'array'): return [(st, ('a', c.dti, 'list', v[3]))]
        if v[0] == 'r':
            w = I.read(st, v[1], v[2])
            if w[0] == 'a' and w[2] in ('vec', 'array'):
                return [(st, ('a', c.dti, 'list', tuple(('r', v[1], v[2] + (('x', ('k', i, I.usize_ti), I.unit_ti),)) for i in range(len(w[3])))))]
            return [(st, I.sym(c.dti, 'iter', I.term(st, w)))]
        if v[0] == 's' and c.ats[0] is not None and I.types[c.ats[0]]['k'] == 'ref':
            return [(st, I.sym(c.dti, 'iter', I.mk('*', v[1])))]
        if v[0] == 's': return [(st, I.sym(c.dti, 'iter', v[1]))]
    if m == 'len' and decl.endswith('ExactSizeIterator::len') and len(a) == 1:
        obj, path, v = deref1(I, st, a[0], pointee(I, c.ats[0]))
        if v[0] == 'a' and v[2] == 'list': return [(st, ('k', len(v[3]), I.usize_ti))]
    if m in ('nth', 'nth_back', 'advance_by', 'count', 'last') and decl.startswith(('std::iter::', 'core::iter::')):
        byref = m in ('nth', 'nth_back', 'advance_by')
        if byref: obj, path, v = deref1(I, st, a[0], pointee(I, c.ats[0]))
        else: v = a[0]
        x = I.norm(st, a[1]) if byref else None
        if v[0] == 'a' and v[2] == 'list' and (x is None or x[0] == 'k'):
            if m == 'count': return [(st, ('k', len(v[3]), I.usize_ti))]
            if m == 'last': return [(st, some(I, c.dti, v[3][-1]) if v[3] else none(I, c.dti))]
            k = x[1]
            if m in ('nth', 'nth_back'):
                els = v[3] if m == 'nth' else v[3][::-1]
                rest = els[k + 1:]
                I.write(st, obj, path, ('a', v[1], 'list', rest if m == 'nth' else rest[::-1]))
                return [(st, some(I, c.dti, els[k]) if k < len(els) else none(I, c.dti))]
    if m in ('next', 'next_back') and c.info.get('id') is None and len(a) == 1:
        obj, path, v = deref1(I, st, a[0], pointee(I, c.ats[0]))
        if v[0] == 'a' and v[2] == 'list':
            if not v[3]: return [(st, none(I, c.dti))]
            if m == 'next':
                I.write(st, obj, path, ('a', v[1], 'list', v[3][1:])); return [(st, some(I, c.dti, v[3][0]))]
            I.write(st, obj, path, ('a', v[1], 'list', v[3][:-1])); return [(st, some(I, c.dti, v[3][-1]))]
        if v[0] == 's':
            t = I.mk(m, v[1])
            I.write(st, obj, path, ('s', I.mk('after', t), v[2]))
            return [(st, ('s', t, c.dti))]
        if v[0] == 'a' and v[1] is not None and I.types[v[1]]['s'].startswith('std::ops::RangeInclusive<'):
            r = const_range(I, st, v)
            if r is not None and r[1] - r[0] <= 64:
                els = tuple(('k', i, r[2]) for i in range(r[0], r[1]))
                if not els: return [(st, none(I, c.dti))]
                I.write(st, obj, path, ('a', v[1], 'list', els[1:] if m == 'next' else els[:-1]))
                return [(st, some(I, c.dti, els[0] if m == 'next' else els[-1]))]
        r = const_range(I, st, v, True)
        if r is not None:
            lo, hi, ti = r
            if lo >= hi: return [(st, none(I, c.dti))]
            f = list(v[3])
            if m == 'next': out = lo; f[0] = ('k', lo + 1, ti)
            else: out = hi - 1; f[1] = ('k', hi - 1, ti)
            I.write(st, obj, path, ('a', v[1], v[2], tuple(f)))
            return [(st, some(I, c.dti, ('k', out, ti)))]
    # default-method combinators on opaque iterators whose element function is `next`
    if m in ('collect', 'for_each', 'count', 'last', 'sum') and False:
        return None
    # ---- comparisons of byte strings
    if m in ('eq', 'ne') and len(a) == 2 and c.info.get('id') is None:
        va, vb = a[0], a[1]
        t1 = strip(I, st, va); t2 = strip(I, st, vb)
        if t1[0] == 'b' and t2[0] == 'b':
            return [(st, I.boolv((t1[1] == t2[1]) == (m == 'eq')))]
        x, y = I.term(st, va), I.term(st, vb)
        if x == y: return [(st, I.boolv(m == 'eq'))]
        r = ('s', I.mk('eq', min(x, y), max(x, y)), I.bool_ti)
        r = I.norm(st, r)
        return [(st, r if m == 'eq' else I.neg(r))]
    return None

def strip(I, st, v):
    while v[0] == 'r':
        v = I.read(st, v[1], v[2])
    return v
