"""Models of the standard and third-party library functions the crate calls (abstract transfer functions)."""
from terms import *
from mir import decode_template

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def ident(*names):
    for n in names:
        M[n] = lambda I, st, c: [(st, I.content(st, c.args[0], c.tys[0]))]


def pure(*names):
    """No effects, result a function of the argument contents."""
    for n in names:
        M[n] = (lambda n: lambda I, st, c: [(st, pcall(I, st, c, n))])(n)


def pcall(I, st, c, n):
    t = T('call', n, tuple(I.contents(st, c)))
    if c.dty.s in ('usize', 'u8', 'u16', 'u32', 'u64'):
        I.unsigned = I.unsigned | {t}
    return t


def val(I, st, c, i):
    """Content of argument i behind all its reference layers."""
    return I.content(st, c.args[i], c.tys[i] if i < len(c.tys) else None)


def place(I, st, c, i):
    """Address behind argument i (a &mut T or &T): one layer."""
    v = c.args[i]
    if v.op == 'ref':
        a = v.a
        # reference stored behind another reference layer
        n = 0
        ty = c.tys[i]
        while ty is not None and ty.k == 'ref' and I.p.types[ty.args[0]].k == 'ref' and n < 4:
            x = I.read(st, a)
            a = I.deref_addr(x)
            ty = I.p.types[ty.args[0]]
            n += 1
        return a
    return I.deref_addr(v)


def tname(I, ty, adt_only=False):
    n = 0
    while ty is not None and ty.k in ('ref', 'ptr') and n < 6:
        ty = I.p.types[ty.args[0]]
        n += 1
    return ty


def adt_of(I, ty):
    ty = tname(I, ty)
    if ty is not None and ty.adt in (OPT, RES, CF):
        return ty.adt
    return None


def norm_ref(I, st, addr):
    return Ref(*addr)


def panic(I, st, c, why):
    I.panics.append((why, st, c.fn, c.sp))
    if I.on_panic:
        I.on_panic(why, st, c)
    return []


def fork_ty(I, st, c, i=0):
    """Forks on the variant of argument i (Option/Result, possibly behind references)."""
    x = val(I, st, c, i)
    adt = adt_of(I, c.tys[i]) if i < len(c.tys) else None
    if adt is None:
        if x.op == 'agg':
            adt = x.a[0]
        else:
            for d in I.variant_hints(st, x):
                adt = d
    if adt is None:
        return None, None
    return x, I.fork_variant(st, x, adt)


GOOD = {'Some': 1, 'Ok': 1, 'Continue': 1}


def wrap_like(v, x):
    return Some(x) if v == 'Some' else Ok(x)


# ------------------------------------------------------------------ Option / Result
@model('std::option::Option::unwrap', 'std::option::Option::expect', 'std::result::Result::unwrap',
       'std::result::Result::expect')
def m_unwrap(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v in GOOD:
            out.append((s, I.payload(x, v)))
        else:
            why = 'unwrap on None' if v == 'None' else 'unwrap on Err'
            panic(I, s, c, why)
    return out


@model('std::result::Result::unwrap_err', 'std::result::Result::expect_err')
def m_unwrap_err(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v == 'Err':
            out.append((s, I.payload(x, v)))
        else:
            panic(I, s, c, 'unwrap_err on Ok')
    return out


@model('std::option::Option::unwrap_or', 'std::result::Result::unwrap_or')
def m_unwrap_or(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    return [(s, I.payload(x, v) if v in GOOD else c.args[1]) for s, v in fs]


@model('std::option::Option::unwrap_or_else', 'std::result::Result::unwrap_or_else')
def m_unwrap_or_else(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v in GOOD:
            out.append((s, I.payload(x, v)))
        else:
            out.extend(I.call_value(s, c.args[1], [I.payload(x, v)] if v == 'Err' else [], c))
    return out


def default_of(I, ty):
    if ty is None:
        return T('default', '?')
    if ty.s in ('std::string::String', '&str'):
        return Str('')
    if ty.s == 'bool':
        return FALSE
    if ty.k == 'prim':
        return Int(0)
    if ty.adt == 'std::vec::Vec':
        return T('seq')
    if ty.adt == OPT:
        return NONE
    return T('default', ty.s)


@model('std::option::Option::unwrap_or_default', 'std::result::Result::unwrap_or_default')
def m_unwrap_or_default(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    return [(s, I.payload(x, v) if v in GOOD else default_of(I, c.dty)) for s, v in fs]


@model('std::option::Option::is_some', 'std::result::Result::is_ok')
def m_is_good(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    return [(s, Bool(v in GOOD)) for s, v in fs]


@model('std::option::Option::is_none', 'std::result::Result::is_err')
def m_is_bad(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    return [(s, Bool(v not in GOOD)) for s, v in fs]


@model('std::option::Option::map', 'std::result::Result::map')
def m_map(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v in GOOD:
            for s2, r in I.call_value(s, c.args[1], [I.payload(x, v)], c):
                out.append((s2, wrap_like(v, r)))
        else:
            out.append((s, NONE if v == 'None' else Err(I.payload(x, v))))
    return out


@model('std::option::Option::map_or', 'std::result::Result::map_or')
def m_map_or(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v in GOOD:
            out.extend(I.call_value(s, c.args[2], [I.payload(x, v)], c))
        else:
            out.append((s, c.args[1]))
    return out


@model('std::option::Option::map_or_else', 'std::result::Result::map_or_else')
def m_map_or_else(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v in GOOD:
            out.extend(I.call_value(s, c.args[2], [I.payload(x, v)], c))
        else:
            out.extend(I.call_value(s, c.args[1], [I.payload(x, v)] if v == 'Err' else [], c))
    return out


@model('std::option::Option::is_some_and', 'std::result::Result::is_ok_and')
def m_is_some_and(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v in GOOD:
            out.extend(I.call_value(s, c.args[1], [I.payload(x, v)], c))
        else:
            out.append((s, FALSE))
    return out


@model('std::result::Result::map_err')
def m_map_err(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v == 'Err':
            for s2, r in I.call_value(s, c.args[1], [I.payload(x, v)], c):
                out.append((s2, Err(r)))
        else:
            out.append((s, Ok(I.payload(x, v))))
    return out


@model('std::option::Option::and_then', 'std::result::Result::and_then')
def m_and_then(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v in GOOD:
            out.extend(I.call_value(s, c.args[1], [I.payload(x, v)], c))
        else:
            out.append((s, NONE if v == 'None' else Err(I.payload(x, v))))
    return out


@model('std::option::Option::or_else', 'std::result::Result::or_else')
def m_or_else(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v in GOOD:
            out.append((s, wrap_like(v, I.payload(x, v))))
        else:
            out.extend(I.call_value(s, c.args[1], [I.payload(x, v)] if v == 'Err' else [], c))
    return out


@model('std::option::Option::or', 'std::result::Result::or')
def m_or(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    return [(s, wrap_like(v, I.payload(x, v)) if v in GOOD else c.args[1]) for s, v in fs]


@model('std::option::Option::and', 'std::result::Result::and')
def m_and(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    return [(s, c.args[1] if v in GOOD else (NONE if v == 'None' else Err(I.payload(x, v)))) for s, v in fs]


@model('std::option::Option::filter')
def m_filter(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v == 'Some':
            p = I.payload(x, v)
            for s2, r in I.call_value(s, c.args[1], [Ref(('P', p), ())], c):
                for s3, b in I.fork_bool(s2, r):
                    out.append((s3, Some(p) if b else NONE))
        else:
            out.append((s, NONE))
    return out


@model('std::option::Option::ok_or')
def m_ok_or(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    return [(s, Ok(I.payload(x, v)) if v in GOOD else Err(c.args[1])) for s, v in fs]


@model('std::option::Option::ok_or_else')
def m_ok_or_else(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v in GOOD:
            out.append((s, Ok(I.payload(x, v))))
        else:
            for s2, r in I.call_value(s, c.args[1], [], c):
                out.append((s2, Err(r)))
    return out


@model('std::result::Result::ok')
def m_ok(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    return [(s, Some(I.payload(x, v)) if v == 'Ok' else NONE) for s, v in fs]


@model('std::result::Result::err')
def m_err(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    return [(s, Some(I.payload(x, v)) if v == 'Err' else NONE) for s, v in fs]


@model('std::option::Option::as_ref', 'std::option::Option::as_mut', 'std::result::Result::as_ref',
       'std::result::Result::as_mut', 'std::option::Option::as_deref', 'std::option::Option::as_deref_mut')
def m_as_ref(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    ad = place(I, st, c, 0)
    deref = 'deref' in c.path
    out = []
    for s, v in fs:
        if v == 'None':
            out.append((s, NONE))
            continue
        r = Ref(ad[0], ad[1] + (('as', v), '0'))
        if deref and c.dty.s.startswith('std::option::Option<&str'):
            r = I.read(s, r.a)
        out.append((s, Some(r) if v == 'Some' else T('agg', RES, v, ('0',), (r,))))
    return out


@model('std::option::Option::cloned', 'std::option::Option::copied')
def m_cloned(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v == 'None':
            out.append((s, NONE))
        else:
            p = I.payload(x, v)
            ity = tname(I, c.tys[0])
            ety = I.p.types[ity.args[0]] if ity is not None and ity.args else None
            out.append((s, Some(I.content(s, p, ety))))
    return out


@model('std::option::Option::take', 'std::mem::take')
def m_take(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    ty = tname(I, c.tys[0])
    I.write(st, ad, default_of(I, ty))
    return [(st, v)]


@model('std::mem::replace', 'std::option::Option::replace')
def m_replace(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    I.write(st, ad, c.args[1] if 'mem' in c.path else Some(c.args[1]))
    return [(st, v)]


@model('std::mem::swap')
def m_swap(I, st, c):
    a, b = place(I, st, c, 0), place(I, st, c, 1)
    x, y = I.read(st, a), I.read(st, b)
    I.write(st, a, y)
    I.write(st, b, x)
    return [(st, UNIT)]


@model('std::option::Option::insert')
def m_oinsert(I, st, c):
    ad = place(I, st, c, 0)
    I.write(st, ad, Some(c.args[1]))
    return [(st, Ref(ad[0], ad[1] + (('as', 'Some'), '0')))]


@model('std::ops::Try::branch')
def m_branch(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v in GOOD:
            out.append((s, Agg(CF, 'Continue', ('0',), (I.payload(x, v),))))
        else:
            out.append((s, Agg(CF, 'Break', ('0',), (NONE if v == 'None' else Err(I.payload(x, v)),))))
    return out


@model('std::ops::Try::from_output')
def m_from_output(I, st, c):
    return [(st, Some(c.args[0]) if c.dty.adt == OPT else Ok(c.args[0]))]


@model('std::ops::FromResidual::from_residual')
def m_from_residual(I, st, c):
    x = c.args[0]
    if x.op == 'agg' and x.a[0] == OPT:
        return [(st, NONE)]
    e = I.payload(x, 'Err')
    ety = I.p.types[c.dty.args[1]] if len(c.dty.args) > 1 else None
    sty = c.tys[0]
    sety = I.p.types[sty.args[1]] if sty is not None and len(sty.args) > 1 else None
    if ety is None or sety is None or ety.s == sety.s:
        return [(st, Err(e))]
    cand = [n for n, f in I.p.raw_fns.items() if f.get('trait') == 'std::convert::From' and f.get('name') == 'from'
            and I.p.types[f['self']].s == ety.s and I.p.body(n).ty(1).s == sety.s]
    if len(cand) == 1 and not I.opaque(cand[0]):
        return [(s, Err(v)) for s, v in I.inline(st, c, cand[0], [e])]
    return [(st, Err(T('from', ety.s, e)))]


# ------------------------------------------------------------------ identity conversions
ident('std::string::String::as_str', 'std::string::String::as_mut_str', 'core::str::<impl str>::as_bytes',
      'std::string::String::as_bytes', 'std::string::String::into_bytes', 'std::string::String::into_boxed_str',
      'std::string::String::into_string', 'core::str::<impl str>::to_owned',
      'std::str::<impl str>::to_owned', 'std::vec::Vec::into_boxed_slice', 'std::slice::<impl [T]>::to_vec',
      'std::slice::<impl [T]>::into_vec', 'std::str::<impl str>::into_string',
      'std::borrow::Cow::into_owned', 'std::borrow::Cow::to_mut', 'std::hint::must_use', 'std::convert::identity',
      'std::hint::black_box', 'core::fmt::rt::<impl std::fmt::Arguments<\'_>>::as_str',
      'std::string::String::from_utf8_lossy_owned', 'std::vec::Vec::into_iter', 'std::pin::Pin::new')


@model('std::borrow::ToOwned::to_owned', 'std::string::ToString::to_string', 'std::convert::Into::into',
       'std::convert::From::from', 'std::clone::Clone::clone')
def m_conv(I, st, c):
    v = val(I, st, c, 0)
    ty = tname(I, c.tys[0]) if c.tys else None
    if c.path == 'std::clone::Clone::clone':
        # one layer only: clone of an Arc/&T/Sender keeps the identity
        a = c.args[0]
        if ty is not None and ty.k == 'adt' and ty.adt in ('std::sync::Arc', 'std::rc::Rc'):
            return [(st, I.read(st, place(I, st, c, 0)))]
        if ty is not None and ty.k == 'ref':
            return [(st, I.read(st, place(I, st, c, 0)))]
        return I.clone_value(st, v, ty, c)
    if c.path == 'std::string::ToString::to_string':
        return [(st, display(I, st, v, ty))]
    if c.path.startswith('std::convert::'):
        return conv(I, st, c, v, ty)
    return [(st, v)]


STRTYS = ('std::string::String', 'str', '&str', 'std::borrow::Cow<\'_, str>', 'char')


def is_stry(ty):
    return ty is not None and (ty.s in ('std::string::String', 'str', 'char') or ty.adt == 'std::borrow::Cow'
                               or ty.adt == 'std::fmt::Arguments')


def display(I, st, v, ty):
    if v.op in ('c',):
        if v.a[0] == 'int':
            return Str(str(v.a[1]))
        if v.a[0] == 'bool':
            return Str('true' if v.a[1] else 'false')
        if v.a[0] == 'char':
            ch = v.a[1]
            return Str(ch if isinstance(ch, str) else chr(ch))
        return v
    if is_stry(ty):
        return v
    if v.op in STRY and v.op not in ('seq', 'arr'):
        return v
    if ty is not None and ty.k == 'adt' and ty.local:
        n = next((n for n, f in I.p.raw_fns.items() if f.get('trait') == 'std::fmt::Display' and f.get('name') == 'fmt'
                  and I.p.types[f['self']].adt == ty.adt), None)
        if n is not None:
            r = I.run_display(st, n, v)
            if r is not None:
                return r
    return T('tostr', v)


def conv(I, st, c, v, ty):
    d = c.dty
    if ty is not None and d is not None and d.k == 'adt' and d.local:
        cand = [n for n, f in I.p.raw_fns.items() if f.get('trait') == 'std::convert::From' and f.get('name') == 'from'
                and I.p.types[f['self']].s == d.s and c.tys[0] is not None and I.p.body(n).ty(1).s == c.tys[0].s]
        if len(cand) == 1:
            if not I.opaque(cand[0]):
                return I.inline(st, c, cand[0], list(c.args))
    if d is not None and d.s == 'std::string::String' or (d is not None and d.adt in (
            'std::vec::Vec', 'bytes::Bytes', 'std::boxed::Box', 'std::sync::Arc', 'std::borrow::Cow')):
        return [(st, v)]
    if c.tys[0] is not None and d is not None and c.tys[0].s == d.s:
        return [(st, c.args[0])]
    if d is not None and d.adt == OPT:
        return [(st, Some(c.args[0]))]
    if d is not None and d.k == 'prim':
        return [(st, T('cast', d.s, v) if not is_c(v) else v)]
    return [(st, T('from', d.s if d is not None else '?', v))]


@model('std::string::String::from_utf8_lossy')
def m_lossy(I, st, c):
    v = val(I, st, c, 0)
    return [(st, lossy(v))]


def lossy(v):
    if is_c(v, 'str') or v.op in ('lossy', 'tostr', 'trim', 'lower', 'upper', 'cat'):
        return v
    if v.op == 'seq' and all(is_c(x, 'int') for x in v.a):
        return Str(bytes(x.a[1] & 255 for x in v.a).decode('utf8', 'replace'))
    return T('lossy', v)


@model('std::string::String::from_utf8', 'std::str::from_utf8', 'core::str::converts::from_utf8',
       'core::str::from_utf8')
def m_from_utf8(I, st, c):
    v = val(I, st, c, 0)
    if is_c(v, 'str'):
        return [(st, Ok(v))]
    out = []
    b = T('utf8ok', v)
    for s, k in I.fork_bool(st, b):
        out.append((s, Ok(lossy(v)) if k else Err(T('utf8err', v))))
    return out


# borrow-like: keep the address
@model('std::borrow::BorrowMut::borrow_mut', 'std::borrow::Borrow::borrow', 'std::convert::AsMut::as_mut',
       'std::convert::AsRef::as_ref', 'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut',
       'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::boxed::Box::as_ref', 'std::boxed::Box::as_mut',
       'std::boxed::Box::leak', 'std::slice::Iter::as_slice', 'std::str::Chars::as_str')
def m_borrow(I, st, c):
    a = c.args[0]
    ty = c.tys[0]
    inner = I.p.types[ty.args[0]] if ty is not None and ty.k == 'ref' else None
    out = c.dty
    if inner is not None and inner.k == 'ref' and out.k == 'ref':
        ad = place(I, st, c, 0)
        return [(st, Ref(*ad))]
    if inner is not None and inner.k == 'adt':
        if inner.adt in ('std::string::String', 'std::borrow::Cow', 'bytes::Bytes') and out.s.replace("'static ", '') in ('&str', '&[u8]'):
            return [(st, val(I, st, c, 0))]
        if inner.adt in ('std::sync::Arc', 'std::rc::Rc', 'std::sync::MutexGuard', 'std::sync::RwLockReadGuard',
                         'std::sync::RwLockWriteGuard', 'once_cell::sync::Lazy', 'std::boxed::Box',
                         'std::sync::LazyLock', 'std::cell::RefMut', 'std::cell::Ref'):
            ad = place(I, st, c, 0)
            v = I.read(st, ad)
            if inner.adt == 'std::boxed::Box':
                if v.op in ('ref', 'guard'):
                    return [(st, Ref(*I.deref_addr(v)))]
                return [(st, Ref(*ad))]
            if 'Lazy' in inner.adt:
                return [(st, a)]
            if v.op in ('ref', 'guard'):
                return [(st, Ref(*I.deref_addr(v)))]
            return [(st, Ref(('H', v), ()))]
    return [(st, a)]


M['lazy_static::lazy::Lazy::get'] = lambda I, st, c: [(st, c.args[0])]
M['std::sync::LazyLock::force'] = lambda I, st, c: [(st, c.args[0])]
M['once_cell::sync::Lazy::new'] = lambda I, st, c: [(st, T('lazy', c.args[0]))]


@model('std::boxed::Box::new', 'std::boxed::Box::pin')
def m_box(I, st, c):
    return [(st, c.args[0])]


@model('std::sync::Arc::new', 'std::rc::Rc::new')
def m_arc(I, st, c):
    base = ('A', c.site)
    st.store[base] = c.args[0]
    return [(st, T('ref', base, ()))]


@model('std::boxed::Box::new_uninit')
def m_new_uninit(I, st, c):
    base = ('A', c.site)
    st.store[base] = T('seq')
    return [(st, T('ref', base, ()))]


@model('std::boxed::box_assume_init_into_vec_unsafe', 'std::boxed::Box::assume_init')
def m_assume_vec(I, st, c):
    v = I.strip(st, c.args[0])
    a = c.args[0]
    if a.op == 'ref' and a.a[0][0] == 'A':
        st.store.pop(a.a[0], None)
    if v.op == 'upd' and v.a[1] == 'value':
        v = v.a[2]
    n = 0
    while v.op in ('agg',) and len(v.a[3]) == 1 and n < 3:
        v = v.a[3][0]
        n += 1
    while v.op == 'upd' and n < 8:
        v = v.a[2]
        n += 1
    if v.op == 'arr':
        v = T('seq', *v.a)
    if v.op == 'rep' and isinstance(v.a[1], int) and v.a[1] <= 64:
        v = T('seq', *([v.a[0]] * v.a[1]))
    return [(st, v)]


M['std::mem::drop'] = M['core::mem::drop'] = lambda I, st, c: (I.release(st, c.args[0], c), I.event(
    st, '@dropfn', c.args, UNIT, c), [(st, UNIT)])[-1]
M['std::mem::forget'] = lambda I, st, c: (I.event(st, '@forget', c.args, UNIT, c), [(st, UNIT)])[-1]
M['std::ops::Drop::drop'] = lambda I, st, c: [(st, UNIT)]


# ------------------------------------------------------------------ strings
M['std::string::String::new'] = M['std::string::String::with_capacity'] = lambda I, st, c: [(st, Str(''))]
M['std::vec::Vec::new'] = M['std::vec::Vec::with_capacity'] = M['bytes::BytesMut::new'] = \
    M['bytes::BytesMut::with_capacity'] = M['std::collections::VecDeque::new'] = lambda I, st, c: [(st, T('seq'))]
M['std::vec::from_elem'] = lambda I, st, c: [(st, T('rep', c.args[0], c.args[1].a[1] if is_c(c.args[1], 'int') else None)
                                              if is_c(c.args[1], 'int') else T('repn', c.args[0], c.args[1]))]
M['std::string::String::reserve'] = M['std::vec::Vec::reserve'] = M['std::vec::Vec::shrink_to_fit'] = \
    lambda I, st, c: [(st, UNIT)]


@model('std::default::Default::default')
def m_default(I, st, c):
    d = c.dty
    if d.adt == 'bytes::Bytes':
        return [(st, T('seq'))]
    if d.adt == 'std::collections::HashMap':
        return [(st, T('map0'))]
    return [(st, default_of(I, d))]


@model('std::ops::Add::add')
def m_add(I, st, c):
    if c.tys[0] is not None and c.tys[0].s == 'std::string::String':
        return [(st, cat([c.args[0], val(I, st, c, 1)]))]
    return [(st, T('call', c.path, tuple(I.contents(st, c))))]


@model('std::ops::AddAssign::add_assign')
def m_addassign(I, st, c):
    ad = place(I, st, c, 0)
    ty = tname(I, c.tys[0])
    if ty is not None and ty.s == 'std::string::String':
        I.write(st, ad, cat([I.read(st, ad), val(I, st, c, 1)]))
    elif ty is not None and ty.k == 'prim':
        I.write(st, ad, I.binop(st, 'Add', I.read(st, ad), c.args[1]))
    else:
        I.write(st, ad, T('call', c.path, (I.read(st, ad), val(I, st, c, 1))))
    return [(st, UNIT)]


@model('std::string::String::push_str', 'std::vec::Vec::extend_from_slice', 'bytes::BytesMut::extend_from_slice',
       'bytes::BufMut::put_slice', 'bytes::BufMut::put', 'std::fmt::Write::write_str')
def m_push_str(I, st, c):
    ad = place(I, st, c, 0)
    I.write(st, ad, cat([seqstr(I.read(st, ad)), val(I, st, c, 1)]))
    return [(st, UNIT if 'write_str' not in c.path else Ok(UNIT))]


@model('std::string::String::push')
def m_push_ch(I, st, c):
    ad = place(I, st, c, 0)
    v = c.args[1]
    if is_c(v, 'char'):
        v = display(I, st, v, None)
    elif not is_c(v, 'str'):
        v = T('tostr', v)
    I.write(st, ad, cat([I.read(st, ad), v]))
    return [(st, UNIT)]


def seqstr(v):
    """An empty sequence is the empty byte string."""
    if v.op == 'seq' and not v.a:
        return Str('')
    return v


def unlist(v):
    """Known element list of a sequence value, or None."""
    if v.op in ('seq', 'arr'):
        return list(v.a)
    if is_c(v, 'str') and v.a[1] == '':
        return []
    return None


@model('std::vec::Vec::push', 'std::collections::VecDeque::push_back')
def m_vpush(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    l = unlist(v)
    if l is not None and len(l) < 40:
        I.write(st, ad, T('seq', *l, c.args[1]))
    else:
        I.write(st, ad, T('pushs', v, c.args[1]))
    I.event(st, '@vpush', (Ref(*ad), c.args[1]), UNIT, c, (v, c.args[1]))
    return [(st, UNIT)]


@model('std::vec::Vec::append', 'std::iter::Extend::extend')
def m_append(I, st, c):
    ad = place(I, st, c, 0)
    if c.path.endswith('append'):
        sad = place(I, st, c, 1)
        o = I.read(st, sad)
        I.write(st, sad, T('seq'))
    else:
        o = val(I, st, c, 1)
        w = whole(I, st, o, True)
        o = w if w is not None else iter_src(o)
    a = I.read(st, ad)
    la, lo = unlist(a), unlist(o)
    if la is not None and lo is not None and not (is_c(a, 'str') or is_c(o, 'str')):
        I.write(st, ad, T('seq', *la, *lo))
    else:
        I.write(st, ad, cat([seqstr(a), seqstr(o)]))
    I.event(st, '@vappend', (Ref(*ad), o), UNIT, c, (a, o))
    return [(st, UNIT)]


@model('std::vec::Vec::clear', 'std::string::String::clear', 'bytes::BytesMut::clear')
def m_clear(I, st, c):
    ad = place(I, st, c, 0)
    ty = tname(I, c.tys[0])
    I.write(st, ad, Str('') if ty is not None and ty.s == 'std::string::String' else T('seq'))
    return [(st, UNIT)]


@model('std::vec::Vec::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'std::string::String::len',
       'bytes::Bytes::len', 'std::collections::HashMap::len', 'std::collections::VecDeque::len', 'bytes::BytesMut::len')
def m_len(I, st, c):
    v = val(I, st, c, 0)
    if v.op == 'map0':
        return [(st, Int(0))]
    return [(st, I.length(st, v))]


@model('std::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty', 'std::collections::HashMap::is_empty',
       'core::str::<impl str>::is_empty', 'std::string::String::is_empty', 'bytes::Bytes::is_empty',
       'std::collections::VecDeque::is_empty')
def m_is_empty(I, st, c):
    v = val(I, st, c, 0)
    if v.op == 'map0':
        return [(st, TRUE)]
    if v.op == 'pushs' or v.op == 'insert':
        return [(st, FALSE)]
    if v.op == 'cat' and any(is_c(x, 'str') and x.a[1] for x in v.a):
        return [(st, FALSE)]
    return [(st, I.binop(st, 'Eq', I.length(st, v), Int(0)))]


@model('core::str::<impl str>::trim', 'core::slice::ascii::<impl [u8]>::trim_ascii')
def m_trim(I, st, c):
    v = val(I, st, c, 0)
    if is_c(v, 'str'):
        return [(st, Str(v.a[1].strip()))]
    if v.op == 'trim':
        return [(st, v)]
    return [(st, T('trim', v))]


@model('std::str::<impl str>::to_lowercase', 'core::str::<impl str>::to_ascii_lowercase',
       'std::str::<impl str>::to_ascii_lowercase', 'core::slice::ascii::<impl [u8]>::to_ascii_lowercase')
def m_lower(I, st, c):
    v = val(I, st, c, 0)
    if is_c(v, 'str'):
        return [(st, Str(v.a[1].lower()))]
    return [(st, v if v.op == 'lower' else T('lower', v))]


@model('std::str::<impl str>::to_uppercase', 'core::str::<impl str>::to_ascii_uppercase',
       'std::str::<impl str>::to_ascii_uppercase')
def m_upper(I, st, c):
    v = val(I, st, c, 0)
    if is_c(v, 'str'):
        return [(st, Str(v.a[1].upper()))]
    return [(st, T('upper', v))]


@model('core::str::<impl str>::eq_ignore_ascii_case')
def m_eqi(I, st, c):
    a, b = val(I, st, c, 0), val(I, st, c, 1)
    if is_c(b, 'str'):
        return [(st, I.binop(st, 'Eq', T('lower', a) if not is_c(a) else Str(a.a[1].lower()), Str(b.a[1].lower())))]
    return [(st, I.binop(st, 'Eq', T('lower', a), T('lower', b)))]


@model('core::str::<impl str>::split', 'core::str::<impl str>::splitn', 'core::str::<impl str>::rsplit',
       'core::str::<impl str>::split_terminator', 'core::str::<impl str>::split_whitespace',
       'core::str::<impl str>::lines', 'core::str::<impl str>::chars', 'core::str::<impl str>::bytes')
def m_split(I, st, c):
    vs = I.contents(st, c)
    k = c.path.split('::')[-1]
    if k == 'split' and len(vs) == 2:
        sep = display(I, st, vs[1], None) if is_c(vs[1], 'char') else vs[1]
        v = vs[0]
        # what follows a leading separator: the pieces of the whole without the first, which is empty
        if v.op == 'sub' and v.a[1] is Int(1) and v.a[2] is I.length(st, v.a[0]) and is_c(sep, 'str') and len(sep.a[1]) == 1 \
                and st.facts.get(T('starts', v.a[0], sep)) is True:
            w = T('split', k, v.a[0], sep)
            return [(st, T('iter', T('sub', w, Int(1), T('len', w))))]
        vs = [v, sep]
    return [(st, T('iter', T('split', k, *vs)))]


@model('core::str::<impl str>::strip_prefix', 'core::str::<impl str>::strip_suffix')
def m_strip(I, st, c):
    v, p = val(I, st, c, 0), val(I, st, c, 1)
    if is_c(p, 'char'):
        p = display(I, st, p, None)
    if not is_c(p, 'str'):
        return [(st, T('call', c.path, tuple(I.contents(st, c))))]
    pre = c.path.endswith('prefix')
    n = Int(len(p.a[1].encode()))
    ln = I.length(st, v)
    out = []
    if is_c(v, 'str'):
        k = v.a[1].startswith(p.a[1]) if pre else v.a[1].endswith(p.a[1])
        r = v.a[1][len(p.a[1]):] if pre else v.a[1][:len(v.a[1]) - len(p.a[1])]
        return [(st, Some(Str(r)) if k else NONE)]
    for s, k in I.fork_bool(st, T('starts' if pre else 'ends', v, p)):
        if not k:
            out.append((s, NONE))
        elif pre:
            out.append((s, Some(substr(I, s, v, n, ln, ln))))
        else:
            out.append((s, Some(substr(I, s, v, Int(0), I.binop(s, 'Sub', ln, n), ln))))
    return out


@model('core::str::<impl str>::split_once')
def m_split_once(I, st, c):
    v, p = val(I, st, c, 0), val(I, st, c, 1)
    b = T('contains', v, p)
    out = []
    for s, k in I.fork_bool(st, b):
        out.append((s, Some(T('tup', T('before', v, p), T('after', v, p))) if k else NONE))
    return out


@model('core::str::<impl str>::starts_with', 'core::slice::<impl [T]>::starts_with')
def m_starts(I, st, c):
    a, b = val(I, st, c, 0), val(I, st, c, 1)
    if is_c(b, 'char'):
        b = display(I, st, b, None)
    if is_c(a, 'str') and is_c(b, 'str'):
        return [(st, Bool(a.a[1].startswith(b.a[1])))]
    if a.op == 'cat' and is_c(a.a[0], 'str') and is_c(b, 'str') and len(a.a[0].a[1]) >= len(b.a[1]):
        return [(st, Bool(a.a[0].a[1].startswith(b.a[1])))]
    return [(st, T('starts', a, b))]


@model('core::str::<impl str>::ends_with', 'core::slice::<impl [T]>::ends_with')
def m_ends(I, st, c):
    a, b = val(I, st, c, 0), val(I, st, c, 1)
    if is_c(a, 'str') and is_c(b, 'str'):
        return [(st, Bool(a.a[1].endswith(b.a[1])))]
    return [(st, T('ends', a, b))]


@model('core::str::<impl str>::contains', 'core::slice::<impl [T]>::contains')
def m_contains(I, st, c):
    a, b = val(I, st, c, 0), val(I, st, c, 1)
    if is_c(b, 'char'):
        b = display(I, st, b, None)
    if is_c(a, 'str') and is_c(b, 'str'):
        return [(st, Bool(b.a[1] in a.a[1]))]
    l = unlist(a)
    if l is not None:
        et = tname(I, c.tys[1])
        own = local_eq_of(I, et, et)
        out = []
        cur = [st]
        for x in l:
            nxt = []
            for s in cur:
                x0 = I.strip(s, x)
                if own is not None and not I.opaque(own):
                    ans = I.inline(s, c, own, [Ref(('H', x0), ()), Ref(('H', b), ())])
                else:
                    ans = [(s, I.binop(s, 'Eq', seqstr(x0), seqstr(b)))]
                for s1, r in ans:
                    for s2, k in I.fork_bool(s1, r):
                        (out.append((s2, TRUE)) if k else nxt.append(s2))
            cur = nxt
        return out + [(s, FALSE) for s in cur]
    return [(st, T('contains', a, b))]


@model('core::str::<impl str>::parse')
def m_parse(I, st, c):
    v = val(I, st, c, 0)
    import re
    m = re.match(r'std::result::Result<([iu])(8|16|32|64|128|size), ', c.dty.s)
    if is_c(v, 'str') and m:
        n, b = v.a[1], 64 if m[2] == 'size' else int(m[2])
        lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if m[1] == 'i' else (0, (1 << b) - 1)
        if re.fullmatch(r'[+-]?[0-9]+', n, re.A) and (n[0] != '-' or m[1] == 'i') and lo <= int(n) <= hi:
            return [(st, Agg(RES, 'Ok', ['0'], [Int(int(n))]))]
        return [(st, Agg(RES, 'Err', ['0'], [T('parseerr', v)]))]
    t = T('call', 'parse', (v,), c.dty.s)
    return [(st, t)]


pure('core::str::<impl str>::find', 'core::str::<impl str>::rfind', 'core::str::<impl str>::char_indices',
     'core::str::<impl str>::replace',
     'std::str::<impl str>::replace', 'core::str::<impl str>::trim_start', 'core::str::<impl str>::trim_end',
     'core::str::<impl str>::trim_matches', 'core::str::<impl str>::trim_start_matches',
     'core::str::<impl str>::trim_end_matches', 'std::cmp::max', 'std::cmp::min', 'std::cmp::Ord::max',
     'std::cmp::Ord::min', 'std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp',
     'std::net::SocketAddr::ip', 'std::net::SocketAddr::port', 'std::net::SocketAddr::is_ipv4',
     'std::net::SocketAddr::is_ipv6', 'std::time::Duration::from_millis', 'std::time::Duration::from_secs',
     'hex::encode', 'hex::decode', 'openssl::base64::encode_block', 'openssl::base64::decode_block',
     'std::ops::Sub::sub', 'std::ops::Mul::mul', 'core::num::<impl usize>::checked_sub', 'core::num::<impl u16>::saturating_sub',
     'core::num::<impl usize>::saturating_sub', 'core::num::<impl usize>::wrapping_sub', 'num_cpus::get',
     'core::num::<impl usize>::checked_add', 'core::char::methods::<impl char>::is_ascii_digit',
     'chrono::TimeDelta::days', 'chrono::TimeDelta::hours', 'chrono::TimeDelta::microseconds',
     'chrono::TimeDelta::milliseconds', 'chrono::TimeDelta::minutes', 'chrono::TimeDelta::nanoseconds',
     'chrono::TimeDelta::num_days', 'chrono::TimeDelta::num_hours', 'chrono::TimeDelta::num_microseconds',
     'chrono::TimeDelta::num_milliseconds', 'chrono::TimeDelta::num_minutes', 'chrono::TimeDelta::num_nanoseconds',
     'chrono::TimeDelta::num_seconds', 'chrono::TimeDelta::num_weeks', 'chrono::TimeDelta::seconds',
     'chrono::TimeDelta::weeks', 'chrono::NaiveDateTime::timestamp_nanos', 'chrono::NaiveDateTime::from_timestamp',
     'chrono::NaiveDateTime::format', 'chrono::NaiveDateTime::parse_from_str', 'chrono::DateTime::naive_local',
     'flate2::Compression::default', 'log::max_level', 'std::collections::HashMap::contains_key',
     'std::thread::panicking',
     'std::slice::<impl [T]>::join', 'std::slice::<impl [T]>::concat', 'core::num::<impl usize>::is_power_of_two',
     'std::io::Error::kind', 'std::collections::HashMap::keys', 'std::collections::HashMap::values')


# ------------------------------------------------------------------ formatting
@model('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug',
       'core::fmt::rt::Argument::new_lower_hex', 'core::fmt::rt::Argument::new_upper_hex')
def m_fmtarg(I, st, c):
    k = c.path.split('_', 1)[1]
    v = val(I, st, c, 0)
    if k == 'display':
        return [(st, T('fmtarg', display(I, st, v, tname(I, c.tys[0]))))]
    return [(st, T('fmtarg', T('fmt', k, v)))]


@model('std::fmt::Arguments::new')
def m_args_new(I, st, c):
    tpl = I.strip(st, c.args[0])
    arr = I.strip(st, c.args[1])
    raw = None
    if is_c(tpl, 'bytes'):
        raw = tpl.a[1]
    elif is_c(tpl, 'str'):
        raw = tpl.a[1].encode()
    if raw is None or arr.op not in ('arr', 'seq'):
        return [(st, T('fmt', 'args', tpl, arr))]
    parts = []
    for p in decode_template(raw):
        if isinstance(p, str):
            parts.append(Str(p))
        else:
            a = arr.a[p[0]]
            a = a.a[0] if a.op == 'fmtarg' else T('fmtx', a)
            parts.append(T('fmt', 'opts', p[1], a) if p[1] else a)
    return [(st, cat(parts))]


M['std::fmt::Arguments::from_str'] = lambda I, st, c: [(st, I.strip(st, c.args[0]))]
M['std::fmt::format'] = M['std::fmt::format::format_inner'] = lambda I, st, c: [(st, I.strip(st, c.args[0]))]


@model('std::fmt::Formatter::write_fmt', 'std::fmt::Formatter::write_str')
def m_fwrite(I, st, c):
    ad = place(I, st, c, 0)
    o = I.read(st, ad)
    if o.op == 'c' or o.op == 'cat' or o.op in STRY:
        I.write(st, ad, cat([o, val(I, st, c, 1)]))
        return [(st, Ok(UNIT))]
    return NotImplemented


@model('std::fmt::Display::fmt')
def m_dfmt(I, st, c):
    ad = place(I, st, c, 1)
    o = I.read(st, ad)
    if o.op == 'c' or o.op in STRY:
        I.write(st, ad, cat([o, display(I, st, val(I, st, c, 0), tname(I, c.tys[0]))]))
        return [(st, Ok(UNIT))]
    return NotImplemented


@model('std::fmt::Write::write_fmt')
def m_wfmt(I, st, c):
    ad = place(I, st, c, 0)
    I.write(st, ad, cat([seqstr(I.read(st, ad)), val(I, st, c, 1)]))
    return [(st, Ok(UNIT))]


# ------------------------------------------------------------------ comparison
@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def m_eq(I, st, c):
    if c.tys[0] is not None and any(ad_local_eq(I, c.tys[0])):
        pass
    a, b = val(I, st, c, 0), val(I, st, c, 1)
    n = local_eq(I, c)
    if n is not None and not I.opaque(n):
        out = []
        la = I.p.body(n)
        for s, r in I.inline(st, c, n, [eqref(I, st, c, 0, la.ty(1)), eqref(I, st, c, 1, la.ty(2))]):
            out.append((s, I.neg(r) if c.path.endswith('ne') else r))
        return out
    a, b = seqstr(a), seqstr(b)
    r = I.binop(st, 'Eq', a, b)
    return [(st, I.neg(r) if c.path.endswith('ne') else r)]


def ad_local_eq(I, ty):
    return ()


def eqref(I, st, c, i, ty):
    """Reference at exactly the depth the callee expects."""
    v = c.args[i]
    have = depth(I, c.tys[i])
    want = depth(I, ty)
    while have > want:
        v = I.read(st, I.deref_addr(v)) if v.op in ('ref', 'guard') else I.read(st, (('H', v), ()))
        have -= 1
    return v


def depth(I, ty):
    n = 0
    while ty is not None and ty.k == 'ref':
        ty = I.p.types[ty.args[0]]
        n += 1
    return n


def local_eq(I, c):
    return local_eq_of(I, tname(I, c.tys[0]), tname(I, c.tys[1]))


def local_eq_of(I, a, b):
    if a is None or b is None:
        return None
    if not (a.local or b.local):
        return None
    for n, f in I.p.raw_fns.items():
        if f.get('trait') == 'std::cmp::PartialEq' and f.get('name') == 'eq':
            bd = I.p.body(n)
            if tname(I, bd.ty(1)).s == a.s and tname(I, bd.ty(2)).s == b.s and depth(I, bd.ty(1)) == 1 == depth(I, bd.ty(2)):
                return n
    return None


@model('std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::ge', 'std::cmp::PartialOrd::gt')
def m_ord(I, st, c):
    t = tname(I, c.tys[0])
    if t is not None and t.adt and t.adt.startswith('log::Level'):
        if I.logs == 'off':
            return [(st, FALSE)]
        return [(st, T('logenabled'))]
    op = {'le': 'Le', 'lt': 'Lt', 'ge': 'Ge', 'gt': 'Gt'}[c.path.split('::')[-1]]
    return [(st, I.binop(st, op, val(I, st, c, 0), val(I, st, c, 1)))]


M['log::__private_api::log'] = M['log::__private_api::loc'] = lambda I, st, c: [(st, UNIT)]


# ------------------------------------------------------------------ indexing
@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def m_index(I, st, c):
    ad = place(I, st, c, 0)
    ty = tname(I, c.tys[0])
    idx = c.args[1]
    ity = c.tys[1]
    coll = val(I, st, c, 0)
    if ty is not None and ty.adt == 'std::collections::HashMap':
        k = I.strip(st, idx)
        if I.on_oblig:
            I.on_oblig('mapindex', None, {'index': k, 'map': coll}, st, c.fn, c.sp, T('has', coll, k), True)
        return [(st, T('ref', ('P', mapget(I, st, coll, k)), ()))]
    n = I.length(st, coll)
    if ity is not None and ity.k == 'prim':
        cond = I.binop(st, 'Lt', idx, n)
        if I.truth(st, cond) is not True and I.on_oblig:
            I.on_oblig('bounds', None, {'index': idx, 'len': n}, st, c.fn, c.sp, cond, True)
        if not I.assume(st, cond, True):
            return panic(I, st, c, 'index out of bounds')
        if c.args[0].op != 'ref' and coll.op in ('c', 'seq', 'arr', 'cat', 'lossy', 'trim', 'el', 'sub'):
            return [(st, T('ref', ('P', project(coll, ('idx', idx))), ()))]
        return [(st, Ref(ad[0], ad[1] + (('idx', idx),)))]
    r = I.strip(st, idx)
    lo, hi = Int(0), n
    if r.op == 'agg':
        nm = r.a[0].split('::')[-1]
        if nm == 'Range':
            lo, hi = project(r, 'start'), project(r, 'end')
        elif nm == 'RangeFrom':
            lo = project(r, 'start')
        elif nm == 'RangeTo':
            hi = project(r, 'end')
        elif nm == 'RangeToInclusive':
            hi = I.binop(st, 'Add', project(r, 'end'), Int(1))
        elif nm == 'RangeFull':
            pass
        else:
            lo, hi = T('rlo', r), T('rhi', r)
    elif r.op == 'zst':
        pass
    else:
        lo, hi = T('rlo', r), T('rhi', r)
    isstr = ty is not None and ty.s in ('str', 'std::string::String')
    for what, cond in (('slice-order', I.binop(st, 'Le', lo, hi)), ('slice-end', I.binop(st, 'Le', hi, n))):
        if I.truth(st, cond) is not True and I.on_oblig:
            I.on_oblig(what, None, {'lo': lo, 'hi': hi, 'len': n}, st, c.fn, c.sp, cond, True)
        if not I.assume(st, cond, True):
            return panic(I, st, c, 'slice out of range')
    if isstr and I.on_oblig and not (is_c(lo, 'int') and lo.a[1] == 0 and hi is n):
        I.on_oblig('char-boundary', None, {'lo': lo, 'hi': hi, 'str': coll}, st, c.fn, c.sp, T('charb', coll, lo, hi), True)
    return [(st, substr(I, st, coll, lo, hi, n))]


def substr(I, st, v, lo, hi, n):
    if lo is Int(0) and hi is n:
        return v
    if is_c(v, 'str') and is_c(lo) and is_c(hi):
        return Str(v.a[1].encode()[lo.a[1]:hi.a[1]].decode('utf8', 'replace'))
    if v.op in ('seq', 'arr') and is_c(lo) and is_c(hi):
        return T('seq', *v.a[lo.a[1]:hi.a[1]])
    if v.op == 'cat' and is_c(v.a[0], 'str') and is_c(lo) and hi is n and len(v.a[0].a[1].encode()) >= lo.a[1]:
        return cat([Str(v.a[0].a[1].encode()[lo.a[1]:].decode('utf8', 'replace'))] + list(v.a[1:]))
    t = T('sub', v, lo, hi)
    # length of the slice is hi - lo
    ln = T('len', t)
    d = I.binop(st, 'Sub', hi, lo)
    if ln not in st.facts:
        st.facts[T('bin', 'Eq', ln, d)] = True
    return t


@model('core::slice::<impl [T]>::get', 'std::vec::Vec::get', 'core::str::<impl str>::get')
def m_get(I, st, c):
    ad = place(I, st, c, 0)
    coll = val(I, st, c, 0)
    ity = c.tys[1]
    n = I.length(st, coll)
    if ity is not None and ity.k == 'prim':
        idx = c.args[1]
        cond = I.binop(st, 'Lt', idx, n)
        out = []
        for s, k in I.fork_bool(st, cond):
            if k:
                if c.args[0].op != 'ref' and coll.op in ('c', 'seq', 'arr'):
                    out.append((s, Some(T('ref', ('P', project(coll, ('idx', idx))), ()))))
                else:
                    out.append((s, Some(Ref(ad[0], ad[1] + (('idx', idx),)))))
            else:
                out.append((s, NONE))
        return out
    r = I.strip(st, c.args[1])
    lo, hi = Int(0), n
    if r.op == 'agg':
        nm = r.a[0].split('::')[-1]
        if nm == 'Range':
            lo, hi = project(r, 'start'), project(r, 'end')
        elif nm == 'RangeFrom':
            lo = project(r, 'start')
        elif nm == 'RangeTo':
            hi = project(r, 'end')
    out = []
    ok = T('rangeok', coll, lo, hi)
    for s, k in I.fork_bool(st, ok):
        out.append((s, Some(substr(I, s, coll, lo, hi, n)) if k else NONE))
    return out


@model('std::vec::Vec::remove', 'std::vec::Vec::swap_remove')
def m_vremove(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    n = I.length(st, v)
    cond = I.binop(st, 'Lt', c.args[1], n)
    if I.truth(st, cond) is not True and I.on_oblig:
        I.on_oblig('bounds', None, {'index': c.args[1], 'len': n}, st, c.fn, c.sp, cond, True)
    if not I.assume(st, cond, True):
        return panic(I, st, c, 'remove out of bounds')
    x = project(v, ('idx', c.args[1]))
    l = unlist(v)
    if l is not None and is_c(c.args[1], 'int'):
        k = c.args[1].a[1]
        I.write(st, ad, T('seq', *(l[:k] + (l[k + 1:] if c.path.endswith('::remove') else l[-1:] + l[k + 1:-1] if k < len(l) - 1 else []))))
    else:
        I.write(st, ad, T('removev' if c.path.endswith('::remove') else 'swapremovev', v, c.args[1]))
    return [(st, x)]


@model('std::vec::Vec::insert')
def m_vinsert(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    l = unlist(v)
    cond = I.binop(st, 'Le', c.args[1], I.length(st, v))
    if I.truth(st, cond) is not True and I.on_oblig:
        I.on_oblig('bounds', None, {'index': c.args[1], 'len': I.length(st, v)}, st, c.fn, c.sp, cond, True)
    if not I.assume(st, cond, True):
        return panic(I, st, c, 'insert out of bounds')
    if l is not None and is_c(c.args[1], 'int'):
        k = c.args[1].a[1]
        I.write(st, ad, T('seq', *(l[:k] + [c.args[2]] + l[k:])))
    else:
        I.write(st, ad, T('insertv', v, c.args[1], c.args[2]))
    I.event(st, '@vinsert', (Ref(*ad), c.args[1], c.args[2]), UNIT, c, (v, c.args[1], c.args[2]))
    return [(st, UNIT)]


@model('std::vec::Vec::pop')
def m_vpop(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    l = unlist(v)
    if l is not None:
        if not l:
            return [(st, NONE)]
        I.write(st, ad, T('seq', *l[:-1]))
        return [(st, Some(l[-1]))]
    return NotImplemented


@model('std::vec::Vec::truncate')
def m_vtrunc(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    I.write(st, ad, substr(I, st, v, Int(0), c.args[1], I.length(st, v)))
    return [(st, UNIT)]


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def m_first(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    n = I.length(st, v)
    out = []
    for s, k in I.fork_bool(st, I.binop(st, 'Eq', n, Int(0))):
        if k:
            out.append((s, NONE))
        else:
            at = Int(0) if c.path.endswith('first') else I.binop(s, 'Sub', n, Int(1))
            out.append((s, Some(Ref(ad[0], ad[1] + (('idx', at),)))))
    return out


# ------------------------------------------------------------------ iteration
def iter_src(v):
    return v.a[0] if v.op == 'iter' and len(v.a) == 1 else v


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::vec::Vec::iter',
       'std::collections::HashMap::iter', 'std::collections::HashMap::iter_mut')
def m_iter(I, st, c):
    ad = place(I, st, c, 0)
    coll = val(I, st, c, 0)
    hm = 'HashMap' in c.path
    if c.args[0].op == 'ref' or hm is False and c.args[0].op not in ('c', 'seq', 'arr', 'cat', 'lossy', 'trim'):
        return [(st, T('iter', 'mapref' if hm else 'ref', Ref(*ad), Int(0)))]
    return [(st, T('iter', 'mapref' if hm else 'refv', coll, Int(0)))]


@model('std::iter::IntoIterator::into_iter')
def m_into_iter(I, st, c):
    ty = c.tys[0]
    v = c.args[0]
    if ty is not None and ty.k == 'ref':
        inner = tname(I, ty)
        if inner.adt == 'std::collections::HashMap':
            return [(st, T('iter', 'mapref', Ref(*place(I, st, c, 0)), Int(0)))]
        if inner.adt == 'std::vec::Vec' or inner.k in ('slice', 'array'):
            return [(st, T('iter', 'ref', Ref(*place(I, st, c, 0)), Int(0)))]
        return [(st, v)]
    if ty is not None and ty.adt == 'std::vec::Vec':
        return [(st, T('iter', 'val', v, Int(0)))]
    if ty is not None and ty.k == 'array':
        return [(st, T('iter', 'val', v, Int(0)))]
    if ty is not None and ty.adt == 'std::collections::HashMap':
        return [(st, T('iter', 'mapval', v, Int(0)))]
    return [(st, v)]


@model('std::iter::Iterator::enumerate')
def m_enum(I, st, c):
    return [(st, T('iter', 'enum', c.args[0], Int(0)))]


@model('std::iter::Iterator::rev', 'std::iter::DoubleEndedIterator::rev')
def m_rev(I, st, c):
    v = c.args[0]
    return [(st, T('iter', 'rev', v, Int(0)))]


@model('std::iter::Iterator::map', 'std::iter::Iterator::filter', 'std::iter::Iterator::filter_map',
       'std::iter::Iterator::take_while', 'std::iter::Iterator::skip_while', 'std::iter::Iterator::inspect',
       'std::iter::Iterator::flat_map', 'std::iter::Iterator::map_while')
def m_imap(I, st, c):
    return [(st, T('iter', c.path.split('::')[-1], c.args[0], c.args[1]))]


@model('std::iter::Iterator::cloned', 'std::iter::Iterator::copied')
def m_icloned(I, st, c):
    return [(st, T('iter', 'cloned', c.args[0], Int(0)))]


@model('std::iter::Iterator::skip', 'std::iter::Iterator::take', 'std::iter::Iterator::step_by')
def m_iskip(I, st, c):
    v, n = c.args[0], c.args[1]
    if c.path.endswith('skip') and is_c(n, 'int'):
        if v.op == 'iter' and len(v.a) == 1 and v.a[0].op == 'split' and v.a[0].a[0] in ('split', 'splitn', 'rsplit') and n.a[1] == 1:
            return [(st, T('iter', T('sub', v.a[0], n, T('len', v.a[0]))))]    # there is always a first piece
        if v.op == 'iter' and len(v.a) == 3 and v.a[0] in ('ref', 'refv', 'val') and is_c(v.a[2], 'int'):
            l = unlist(I.strip(st, v.a[1]) if v.a[0] == 'ref' else v.a[1])
            if l is not None:
                return [(st, T('iter', v.a[0], v.a[1], Int(min(len(l), v.a[2].a[1] + n.a[1]))))]
    return [(st, T('iter', c.path.split('::')[-1], c.args[0], c.args[1]))]


ANY = T('any')


def anywhere(it):
    """The iterator at any position, or None"""
    if it.op != 'iter':
        return None
    if len(it.a) == 4 and it.a[0] == 'seg':
        return T('iter', {'ref': 'refv'}.get(it.a[3], 'val'), it.a[1], ANY)
    if len(it.a) == 3 and it.a[0] in ('ref', 'refv', 'val', 'mapref', 'mapval'):
        return T('iter', it.a[0], it.a[1], ANY)
    if len(it.a) == 3 and it.a[0] in ('enum', 'cloned', 'map', 'filter', 'filter_map', 'rev', 'unord', 'take_while', 'map_while', 'inspect'):
        g = anywhere(it.a[1])
        return None if g is None else T('iter', it.a[0], g, T('anyix', g) if it.a[0] == 'enum' else it.a[2])
    return None


def generic(I, st, it):
    """The iterator at some position of its run: counters it keeps may have any value from the first on"""
    if it.op == 'agg' and it.a[0] in ('std::ops::Range', 'std::ops::RangeInclusive'):
        lo = project(it, 'start')
        ix = T('anyix', it)
        I.unsigned = I.unsigned | {ix}
        I.purge(st, ix)
        I.assume(st, I.binop(st, 'Le', lo, ix), True)
        it = update(it, ('start',), ix)
        if it.a[0] == 'std::ops::RangeInclusive':
            b = T('anyex', it)
            I.purge(st, b)
            it = update(it, ('exhausted',), b)
        return it
    if it.op == 'iter' and len(it.a) == 3:
        if it.a[0] == 'enum':
            ix = T('anyix', it)
            I.unsigned = I.unsigned | {ix}
            I.purge(st, ix)
            return T('iter', 'enum', generic(I, st, it.a[1]), ix)
        if it.a[0] in ('zip', 'chain'):
            return T('iter', it.a[0], generic(I, st, it.a[1]), generic(I, st, it.a[2]))
        if it.a[0] in ('cloned', 'map', 'filter', 'filter_map', 'rev', 'take_while', 'map_while', 'inspect'):
            return T('iter', it.a[0], generic(I, st, it.a[1]), it.a[2])
    return it


def widened(I, hv):
    """A widened iterator: what it may be, at any position; None if that is not known"""
    srcs, todo, seen = [], [hv], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'hv':
            if x not in I.hsrc:
                return None
            todo.extend(I.hsrc[x])
        else:
            srcs.append(x)
    gens = [anywhere(x) for x in sorted(srcs, key=lambda t: t.i)]
    return None if None in gens else list(dict.fromkeys(gens))


def iter_next(I, st, it, c, tag=0):
    """[(state, element or None, iterator')]"""
    if it.op == 'agg' and it.a[0] == 'std::ops::RangeInclusive':
        lo, hi, ex = project(it, 'start'), project(it, 'end'), project(it, 'exhausted')
        out = []
        for s, e in I.fork_bool(st, ex):
            if e:
                out.append((s, None, it))
                continue
            for s2, k in I.fork_bool(s, I.binop(s, 'Lt', lo, hi)):
                if k:
                    out.append((s2, lo, update(it, ('start',), I.binop(s2, 'Add', lo, Int(1)))))
                    continue
                for s3, q in I.fork_bool(s2, I.binop(s2, 'Eq', lo, hi)):
                    out.append((s3, lo, update(it, ('exhausted',), TRUE)) if q else (s3, None, it))
        return out
    if it.op == 'agg' and it.a[0] == 'std::ops::Range':
        lo, hi = project(it, 'start'), project(it, 'end')
        cond = I.binop(st, 'Lt', lo, hi)
        out = []
        for s, k in I.fork_bool(st, cond):
            if k:
                out.append((s, lo, update(it, ('start',), I.binop(s, 'Add', lo, Int(1)))))
            else:
                out.append((s, None, it))
        return out
    if it.op == 'hv':
        # widened concrete iterator: any element of what it iterated over
        gens = widened(I, it)
        if gens:
            out = []
            for g in gens:
                out.extend((s, e, it) for s, e, _ in iter_next(I, st.copy(), g, c, tag))
            return out
    if it.op == 'iter' and len(it.a) == 3:
        k, src, pos = it.a
        if k in ('ref', 'refv', 'val', 'mapref', 'mapval'):
            coll = I.strip(st, src) if k in ('ref', 'mapref') else src
            if coll.op == 'map0':
                return [(st, None, it)]
            l = unlist(coll) if k in ('ref', 'refv', 'val') else None
            if l is not None and is_c(pos, 'int') and len(l) <= 24:
                if pos.a[1] >= len(l):
                    return [(st, None, it)]
                ni = T('iter', k, src, Int(pos.a[1] + 1))
                if k == 'val':
                    e = l[pos.a[1]]
                elif k == 'ref':
                    e = Ref(src.a[0], src.a[1] + (('idx', pos),)) if src.op == 'ref' else Ref(('H', src), (('idx', pos),))
                else:
                    e = T('ref', ('P', l[pos.a[1]]), ())
                return [(st, e, ni)]
            ix = T('ix', c.site, tag)
            has = T('more', coll, ix)
            for f in (has,):
                st.facts.pop(f, None)
            I.purge(st, ix)
            if l == []:
                return [(st, None, it)]
            cond = T('more', coll, c.site)
            st.facts.pop(cond, None)
            s2 = st.copy()
            st.facts[cond] = True
            s2.facts[cond] = False
            if k == 'val':
                e = T('el', coll, ix)
            elif k == 'ref':
                ad = I.deref_addr(src)
                e = Ref(ad[0], ad[1] + (('idx', ix),))
            elif k == 'refv':
                e = T('ref', ('P', T('el', coll, ix)), ())
            elif k == 'mapref':
                e = T('tup', T('ref', ('P', T('mkey', coll, ix)), ()), T('ref', ('P', T('mval', coll, ix)), ()))
            else:
                e = T('tup', T('mkey', coll, ix), T('mval', coll, ix))
            return [(st, e, it), (s2, None, it)]
        if k == 'enum':
            out = []
            for s, e, ni in iter_next(I, st, src, c, (tag, 'e')):
                if e is None:
                    out.append((s, None, T('iter', 'enum', ni, pos)))
                else:
                    out.append((s, T('tup', pos, e), T('iter', 'enum', ni, I.binop(s, 'Add', pos, Int(1)))))
            return out
        if k == 'zip':
            out = []
            for s, e, ni in iter_next(I, st, src, c, (tag, 'a')):
                if e is None:
                    out.append((s, None, T('iter', 'zip', ni, pos)))
                    continue
                for s2, e2, nj in iter_next(I, s, pos, c, (tag, 'b')):
                    out.append((s2, None if e2 is None else T('tup', e, e2), T('iter', 'zip', ni, nj)))
            return out
        if k == 'chain':
            out = []
            for s, e, ni in iter_next(I, st, src, c, (tag, 'h')):
                if e is not None:
                    out.append((s, e, T('iter', 'chain', ni, pos)))
                    continue
                out.extend((s2, e2, T('iter', 'chain', ni, nj)) for s2, e2, nj in iter_next(I, s, pos, c, (tag, 't')))
            return out
        if k == 'rev':
            return [(s, e, T('iter', 'rev', ni, pos)) for s, e, ni in iter_next(I, st, T('iter', 'unord', src, Int(0)), c, (tag, 'r'))]
        if k == 'cloned':
            out = []
            for s, e, ni in iter_next(I, st, src, c, (tag, 'c')):
                out.append((s, None if e is None else I.strip(s, e), T('iter', 'cloned', ni, pos)))
            return out
        if k == 'map':
            out = []
            for s, e, ni in iter_next(I, st, src, c, (tag, 'm')):
                if e is None:
                    out.append((s, None, T('iter', 'map', ni, pos)))
                else:
                    for s2, r in I.call_value(s, pos, [e], c):
                        out.append((s2, r, T('iter', 'map', ni, pos)))
            return out
        if k in ('filter', 'filter_map'):
            out = []
            todo = [(st, src)]
            for _ in range(26):
                nxt = []
                for s, i in todo:
                    for s1, e, ni in iter_next(I, s, i, c, (tag, 'f')):
                        if e is None:
                            out.append((s1, None, T('iter', k, ni, pos)))
                            continue
                        if k == 'filter':
                            b = ('G', c.site, tag)
                            s1.store[b] = e
                            rs = I.call_value(s1, pos, [T('ref', b, ())], c)
                        else:
                            rs = I.call_value(s1, pos, [e], c)
                        for s2, r in rs:
                            s2.store.pop(('G', c.site, tag), None)
                            if k == 'filter':
                                fs = [(s3, kk, e) for s3, kk in I.fork_bool(s2, r)]
                            else:
                                fs = [(s3, v == 'Some', I.payload(r, 'Some') if v == 'Some' else None)
                                      for s3, v in I.fork_variant(s2, r, OPT)]
                            for s3, kk, x in fs:
                                if kk:
                                    out.append((s3, x, T('iter', k, ni, pos)))
                                elif ni is not i:
                                    nxt.append((s3, ni))
                                # an abstract element that is skipped: the next one is covered by the generic element
                todo = nxt
                if not todo:
                    break
            return out
    # opaque iterator
    ix = T('ix', c.site, tag)
    I.purge(st, ix)
    src = iter_src(it)
    cond = T('more', src, c.site)
    st.facts.pop(cond, None)
    s2 = st.copy()
    st.facts[cond] = True
    s2.facts[cond] = False
    return [(st, T('el', src, ix), it), (s2, None, it)]


@model('std::iter::Iterator::next')
def m_next(I, st, c):
    ad = place(I, st, c, 0)
    it = I.read(st, ad)
    # user-visible iterators with effects (accept loops) stay opaque events
    if c.f.get('full', '').startswith('<std::net::Incoming') or (tname(I, c.tys[0]) is not None and tname(
            I, c.tys[0]).adt in ('std::net::Incoming', 'std::net::IntoIncoming')):
        ret = T('call', 'accept', (it,), c.site)
        I.purge(st, ret)
        I.event(st, 'accept', c.args, ret, c, (it,))
        return [(st, Some(ret))]
    out = []
    for s, e, ni in iter_next(I, st, it, c):
        I.write(s, ad, ni)
        out.append((s, NONE if e is None else Some(e)))
    return out


@model('std::net::TcpListener::accept')
def m_accept(I, st, c):
    """One connection, as the iterator of incoming ones yields it, with its peer's address"""
    it = I.content(st, c.args[0], c.tys[0])
    ret = T('call', 'accept', (it,), c.site)
    I.purge(st, ret)
    I.event(st, 'accept', c.args, ret, c, (it,))
    out = []
    for s, v in I.fork_variant(st, ret, RES):
        if v == 'Err':
            out.append((s, Err(I.payload(ret, v))))
            continue
        x = I.payload(ret, v)
        peer = T('call', 'std::net::TcpStream::peer_addr', (x,), c.site)
        s.facts[T('discr', peer)] = 'Ok'
        out.append((s, Ok(T('tup', x, I.payload(peer, 'Ok')))))
    return out


def whole(I, st, it, refs=False):
    """The collection a fresh iterator goes through completely, element by element; None if it is not one"""
    if it.op != 'iter':
        return None
    if len(it.a) == 1:
        return it.a[0]
    k, src, pos = it.a[:3] if len(it.a) >= 3 else (None, None, None)
    if k == 'chain':
        a, b = whole(I, st, src, refs), whole(I, st, pos, refs)
        return None if a is None or b is None or is_c(a, 'str') or is_c(b, 'str') else (b if unlist(a) == [] else a if unlist(b) == [] else T('seq', *unlist(a), *unlist(b)) if unlist(a) is not None and unlist(b) is not None else cat([a, b]))
    if k == 'cloned':
        return whole(I, st, src, True)
    if len(it.a) != 3 or not (is_c(pos) and pos.a[1] == 0):
        return None
    if k in ('val', 'mapval'):
        return src
    if refs and k in ('ref', 'refv'):
        return I.strip(st, src)
    return None


@model('std::iter::Iterator::chain')
def m_chain(I, st, c):
    a, b = c.args[0], I.strip(st, c.args[1])
    if c.dty.adt == 'std::iter::Chain' and b.op not in ('iter',) and whole(I, st, a, True) is not None and c.tys[1] is not None and c.tys[1].adt == 'std::vec::Vec':
        b = T('iter', 'val', b, Int(0))
    if whole(I, st, a, True) is None or whole(I, st, b, True) is None:
        return NotImplemented
    return [(st, T('iter', 'chain', a, b))]


@model('std::iter::Iterator::collect')
def m_collect(I, st, c):
    it = c.args[0]
    w = whole(I, st, it)
    if w is not None:
        return [(st, w)]
    base = it
    while base.op == 'iter' and len(base.a) == 3 and base.a[0] in ('enum', 'cloned', 'map', 'filter', 'filter_map'):
        base = base.a[1]
    if c.dty.adt == 'std::vec::Vec' and stepwise(I, st, base):
        if base.op == 'agg':
            n = project(base, 'end').a[1] - project(base, 'start').a[1]
        else:
            l = unlist(I.strip(st, base.a[1]) if base.a[0] == 'ref' else base.a[1]) if len(base.a) == 3 else None
            n = len(l) if l is not None else 99
        if n <= 24:
            acc = ('F', c.site)
            st.store[acc] = T('seq')

            def step(s, e):
                s.store[acc] = T('seq', *s.store[acc].a, e)
                return [(s, None)]
            res = I.drive(st, c, step, lambda s: s.store[acc], it)
            for s, _ in res:
                s.store.pop(acc, None)
            return res
    if it.op == 'iter' and it.a[0] in ('map', 'filter', 'filter_map'):
        return I.drive(st, c, lambda s, e: [(s, None)], lambda s: T('coll', it), it)
    return [(st, T('coll', it))]


def drive_it(I, st, c):
    """Iterator value of argument 0 (by value or behind &mut)."""
    v = c.args[0]
    if v.op == 'ref' and c.tys[0] is not None and c.tys[0].k == 'ref':
        return I.read(st, place(I, st, c, 0))
    return v


GATHER = ('nth', 'max', 'min', 'max_by_key', 'min_by_key', 'sum', 'product', 'reduce', 'partition', 'unzip')


def stepwise(I, st, it):
    """Is this iterator gone through element by element?"""
    while it.op == 'iter' and len(it.a) >= 3 and it.a[1].op == 'iter':
        it = it.a[1]
    if it.op == 'agg' and it.a[0] == 'std::ops::Range':
        return is_c(project(it, 'start')) and is_c(project(it, 'end'))
    if it.op != 'iter':
        return False
    if len(it.a) == 4 and it.a[0] == 'seg':
        return True
    if len(it.a) == 3 and it.a[0] in ('ref', 'refv', 'val'):
        x = I.strip(st, it.a[1]) if it.a[0] == 'ref' else it.a[1]
        return unlist(x) is not None or x.op in ('run', 'cat') or is_c(x, 'str')
    return False


def gather0(I, op, c):
    return {'count': Int(0), 'last': NONE, 'nth': c.args[-1], 'max': NONE, 'min': NONE, 'max_by_key': NONE, 'min_by_key': NONE, 'sum': Int(0), 'product': Int(1),
            'reduce': NONE, 'partition': T('tup', T('seq'), T('seq')), 'unzip': T('tup', T('seq'), T('seq'))}.get(op)


def gather(I, s, c, op, clo, acc, e):
    a = s.store[acc]
    out = []
    if op == 'count':
        s.store[acc] = I.binop(s, 'Add', a, Int(1))
    elif op == 'last':
        s.store[acc] = Some(e)
    elif op == 'nth':
        for s2, k in I.fork_bool(s, I.binop(s, 'Eq', a, Int(0))):
            if not k:
                s2.store[acc] = I.binop(s2, 'Sub', a, Int(1))
            out.append((s2, Some(e) if k else None))
        return out
    elif op in ('sum', 'product'):
        s.store[acc] = I.binop(s, 'Add' if op == 'sum' else 'Mul', a, I.strip(s, e))
    elif op == 'unzip':
        s.store[acc] = T('tup', T('seq', *a.a[0].a, project(e, '0')), T('seq', *a.a[1].a, project(e, '1')))
    elif op == 'partition':
        s.store[('G', c.site)] = e
        for s2, r in I.call_value(s, clo, [T('ref', ('G', c.site), ())], c):
            s2.store.pop(('G', c.site), None)
            for s3, k in I.fork_bool(s2, r):
                l = [T('seq', *x.a) for x in a.a]
                l[0 if k else 1] = T('seq', *l[0 if k else 1].a, e)
                s3.store[acc] = T('tup', *l)
                out.append((s3, None))
        return out
    elif op == 'reduce':
        if a is NONE:
            s.store[acc] = Some(e)
        else:
            for s2, r in I.call_value(s, clo, [a.a[3][0], e], c):
                s2.store[acc] = Some(r)
                out.append((s2, None))
            return out
    else:
        if op.endswith('key'):
            s.store[('G', c.site)] = e
            ks = I.call_value(s, clo, [T('ref', ('G', c.site), ())], c)
        else:
            ks = [(s, e)]
        for s2, k in ks:
            s2.store.pop(('G', c.site), None)
            x = T('tup', k, e)
            if a is NONE:
                s2.store[acc] = Some(x)
                out.append((s2, None))
                continue
            old = a.a[3][0].a[0]
            p, q = I.strip(s2, k), I.strip(s2, old)
            # the last of several maxima, the first of several minima
            cond = I.neg(I.binop(s2, 'Lt', p, q)) if op.startswith('max') else I.binop(s2, 'Lt', p, q)
            for s3, b in I.fork_bool(s2, cond):
                if b:
                    s3.store[acc] = Some(x)
                out.append((s3, None))
        return out
    return [(s, None)]


def gathered(op, a):
    if op == 'nth':
        return NONE
    if op.startswith(('max', 'min')):
        return a if a is NONE else Some(a.a[3][0].a[1])
    return a


@model('std::iter::Iterator::for_each', 'std::iter::Iterator::any', 'std::iter::Iterator::all',
       'std::iter::Iterator::find', 'std::iter::Iterator::position', 'std::iter::Iterator::find_map',
       'std::iter::Iterator::fold', 'std::iter::Iterator::try_for_each', 'std::iter::Iterator::count',
       'std::iter::Iterator::last', 'std::iter::Iterator::nth', 'std::iter::Iterator::max', 'std::iter::Iterator::min',
       'std::iter::Iterator::max_by_key', 'std::iter::Iterator::min_by_key', 'std::iter::Iterator::sum', 'std::iter::Iterator::product',
       'std::iter::Iterator::reduce', 'std::iter::Iterator::partition', 'std::iter::Iterator::unzip')
def m_iter_drive(I, st, c):
    op = c.path.split('::')[-1]
    it = drive_it(I, st, c)
    if op in ('count', 'last') and not (I.segmode and stepwise(I, st, it)):
        return [(st, T('call', op, (iter_src(it),)))] if op == 'count' else NotImplemented
    if op in GATHER and not (I.segmode and stepwise(I, st, it)):
        return NotImplemented
    clo = c.args[-1]
    acc = ('F', c.site)
    start = gather0(I, op, c)
    if start is not None:
        st.store[acc] = start

    def step(s, e):
        out = []
        if op == 'for_each':
            return [(s2, None) for s2, _ in I.call_value(s, clo, [e], c)]
        if op in GATHER or op in ('count', 'last'):
            return gather(I, s, c, op, clo, acc, e)
        if op == 'try_for_each':
            for s2, r in I.call_value(s, clo, [e], c):
                for s3, v in I.fork_variant(s2, r, c.dty.adt):
                    out.append((s3, None if v in GOOD else r))
            return out
        if op == 'fold':
            for s2, r in I.call_value(s, clo, [s.store[acc], e], c):
                s2.store[acc] = r
                out.append((s2, None))
            return out
        if op == 'find_map':
            for s2, r in I.call_value(s, clo, [e], c):
                for s3, v in I.fork_variant(s2, r, OPT):
                    out.append((s3, Some(I.payload(r, v)) if v == 'Some' else None))
            return out
        if op == 'find':
            b = ('G', c.site)
            s.store[b] = e
            for s2, r in I.call_value(s, clo, [T('ref', b, ())], c):
                s2.store.pop(b, None)
                for s3, k in I.fork_bool(s2, r):
                    out.append((s3, Some(e) if k else None))
            return out
        for s2, r in I.call_value(s, clo, [e], c):
            for s3, k in I.fork_bool(s2, r):
                if op == 'any':
                    out.append((s3, TRUE if k else None))
                elif op == 'all':
                    out.append((s3, None if k else FALSE))
                else:
                    at = e.a[1][-1][1] if e.op == 'ref' and e.a[1] and isinstance(e.a[1][-1], tuple) and e.a[1][-1][0] == 'idx' else None
                    if at is None or not (it.op == 'iter' and len(it.a) == 3 and it.a[0] == 'ref' and it.a[2] is Int(0)):
                        at = T('ixof', e)
                    I.unsigned = I.unsigned | {at}
                    w = whole(I, s3, it, True)
                    if k and w is not None:
                        I.assume(s3, I.binop(s3, 'Lt', at, I.length(s3, w)), True)
                    out.append((s3, Some(at) if k else None))
        return out

    def done(s):
        return {'for_each': UNIT, 'any': FALSE, 'all': TRUE, 'find': NONE, 'position': NONE, 'find_map': NONE,
                'try_for_each': Ok(UNIT) if c.dty.adt == RES else Some(UNIT)}.get(op) or gathered(op, s.store[acc])
    if op == 'fold':
        st.store[acc] = c.args[1]
    res = I.drive(st, c, step, done, it, place(I, st, c, 0) if it is not c.args[0] else None)
    for s, _ in res:
        s.store.pop(acc, None)
    return res




# ------------------------------------------------------------------ maps
M['std::collections::HashMap::new'] = M['std::collections::HashMap::with_capacity'] = lambda I, st, c: [(st, T('map0'))]


def mapget(I, st, m, k):
    n = 0
    while m.op in ('insert', 'remove') and n < 50:
        r = I.truth(st, I.binop(st, 'Eq', m.a[1], k))
        if r is True and m.op == 'insert':
            return m.a[2]
        if r is not False:
            break
        m = m.a[0]
        n += 1
    return T('mget', m, k)


def maphas(I, st, m, k):
    """True / False / condition term"""
    n = 0
    while n < 50:
        if m.op == 'map0':
            return FALSE
        if m.op == 'insert':
            r = I.truth(st, I.binop(st, 'Eq', m.a[1], k))
            if r is True:
                return TRUE
            if r is None:
                return T('has', m, k)
            m = m.a[0]
        elif m.op == 'remove':
            r = I.truth(st, I.binop(st, 'Eq', m.a[1], k))
            if r is True:
                return FALSE
            if r is None:
                return T('has', m, k)
            m = m.a[0]
        else:
            return T('has', m, k)
        n += 1
    return T('has', m, k)


@model('std::collections::HashMap::get', 'std::collections::HashMap::get_mut')
def m_mget(I, st, c):
    ad = place(I, st, c, 0)
    m = val(I, st, c, 0)
    k = val(I, st, c, 1)
    cond = maphas(I, st, m, k)
    out = []
    for s, b in I.fork_bool(st, cond):
        if b:
            if c.path.endswith('_mut'):
                out.append((s, Some(keyref(I, s, ad, k))))
            else:
                out.append((s, Some(T('ref', ('P', mapget(I, s, m, k)), ()))))
        else:
            out.append((s, NONE))
    return out


def keyref(I, st, ad, k):
    """A reference to the value the map at ad holds under k"""
    m = I.read(st, ad)
    v = mapget(I, st, m, k)
    if project(m, ('key', k)) is not v:      # the key is an equal one written differently
        I.write(st, ad, T('insert', m, k, v))
    return Ref(ad[0], ad[1] + (('key', k),))


# entries: what is under one key of a map
@model('std::collections::HashMap::entry')
def m_entry(I, st, c):
    ad = place(I, st, c, 0)
    k = I.strip(st, c.args[1])
    cond = maphas(I, st, I.read(st, ad), k)
    out = []
    for s, b in I.fork_bool(st, cond):
        out.append((s, Agg(ENTRY, 'Occupied' if b else 'Vacant', ('0',), (T('entry', Ref(*ad), k),))))
    return out


ENTRY = 'std::collections::hash_map::Entry'


def entry_of(I, st, c, i=0):
    e = c.args[i]
    n = 0
    while e.op == 'ref' and n < 3:
        e = I.read(st, e.a)
        n += 1
    kind = None
    if e.op == 'agg' and e.a[0] == ENTRY:
        kind = e.a[1]
        e = e.a[3][0]
    if e.op != 'entry':
        return None, None, None
    return kind, e.a[0].a if e.a[0].op == 'ref' else I.deref_addr(e.a[0]), e.a[1]


def put(I, st, c, ad, k, v):
    m = I.read(st, ad)
    I.write(st, ad, T('insert', m, k, v))
    I.event(st, '@minsert', (Ref(*ad), k, v), UNIT, c, (m, k, I.strip(st, v)))


@model(*(ENTRY + '::' + x for x in ('or_insert', 'or_insert_with', 'or_default', 'or_insert_with_key')))
def m_or_insert(I, st, c):
    kind, ad, k = entry_of(I, st, c)
    if kind is None:
        return NotImplemented
    if kind == 'Occupied':
        return [(st, keyref(I, st, ad, k))]
    op = c.path.split('::')[-1]
    if op == 'or_insert':
        vs = [(st, c.args[1])]
    elif op == 'or_default':
        vs = [(st, default_of(I, I.p.types[c.dty.args[0]]))]
    else:
        vs = I.call_value(st, c.args[1], [] if op == 'or_insert_with' else [T('ref', ('P', k), ())], c)
    out = []
    for s, v in vs:
        put(I, s, c, ad, k, v)
        out.append((s, Ref(ad[0], ad[1] + (('key', k),))))
    return out


@model(ENTRY + '::and_modify')
def m_and_modify(I, st, c):
    kind, ad, k = entry_of(I, st, c)
    if kind is None:
        return NotImplemented
    if kind == 'Vacant':
        return [(st, c.args[0])]
    return [(s, c.args[0]) for s, _ in I.call_value(st, c.args[1], [keyref(I, st, ad, k)], c)]


@model(ENTRY + '::key', 'std::collections::hash_map::OccupiedEntry::key', 'std::collections::hash_map::VacantEntry::key')
def m_entry_key(I, st, c):
    _, ad, k = entry_of(I, st, c)
    return NotImplemented if ad is None else [(st, T('ref', ('P', k), ()))]


@model(*('std::collections::hash_map::OccupiedEntry::' + x for x in ('get', 'get_mut', 'into_mut')))
def m_occ_get(I, st, c):
    _, ad, k = entry_of(I, st, c)
    return NotImplemented if ad is None else [(st, keyref(I, st, ad, k))]


@model('std::collections::hash_map::OccupiedEntry::insert', 'std::collections::hash_map::VacantEntry::insert', 'std::collections::hash_map::VacantEntry::insert_entry',
       'std::collections::hash_map::OccupiedEntry::remove')
def m_entry_insert(I, st, c):
    _, ad, k = entry_of(I, st, c)
    if ad is None:
        return NotImplemented
    m = I.read(st, ad)
    old = mapget(I, st, m, k)
    if c.path.endswith('::remove'):
        I.event(st, '@mremove', (Ref(*ad), k), UNIT, c, (m, k))
        I.write(st, ad, T('remove', m, k))
        return [(st, old)]
    put(I, st, c, ad, k, c.args[1])
    return [(st, old if 'Occupied' in c.path else Ref(ad[0], ad[1] + (('key', k),)))]


@model('std::collections::HashMap::contains_key')
def m_contains_key(I, st, c):
    return [(st, maphas(I, st, val(I, st, c, 0), val(I, st, c, 1)))]


@model('std::collections::HashMap::insert')
def m_minsert(I, st, c):
    ad = place(I, st, c, 0)
    m = I.read(st, ad)
    k = I.strip(st, c.args[1])
    old = m
    had = maphas(I, st, old, k)
    back = NONE if had is FALSE else Some(mapget(I, st, old, k)) if had is TRUE else T('call', 'insert-old', (old, k))
    while m.op == 'insert' and I.truth(st, I.binop(st, 'Eq', m.a[1], k)) is True:
        m = m.a[0]
    I.write(st, ad, T('insert', m, k, c.args[2]))
    I.event(st, '@minsert', (Ref(*ad), k, c.args[2]), UNIT, c, (old, k, I.strip(st, c.args[2])))
    return [(st, back)]


@model('std::collections::HashMap::remove')
def m_mremove(I, st, c):
    ad = place(I, st, c, 0)
    m = I.read(st, ad)
    k = val(I, st, c, 1)
    I.event(st, '@mremove', (Ref(*ad), k), UNIT, c, (m, k))
    cond = maphas(I, st, m, k)
    out = []
    for s, b in I.fork_bool(st, cond):
        if b:
            I.write(s, ad, T('remove', m, k))
            out.append((s, Some(mapget(I, s, m, k))))
        else:
            out.append((s, NONE))
    return out


@model('std::collections::HashMap::clear')
def m_mclear(I, st, c):
    I.write(st, place(I, st, c, 0), T('map0'))
    return [(st, UNIT)]


# ------------------------------------------------------------------ locks, atomics, channels
@model('std::sync::Mutex::new', 'std::sync::RwLock::new')
def m_lock_new(I, st, c):
    return [(st, Agg('@lock', '@lock', ('@in',), (c.args[0],)))]


@model('std::sync::Mutex::lock', 'std::sync::RwLock::read', 'std::sync::RwLock::write', 'std::sync::Mutex::try_lock',
       'std::sync::RwLock::try_read', 'std::sync::RwLock::try_write')
def m_lock(I, st, c):
    ad = place(I, st, c, 0)
    mode = c.path.split('::')[-1]
    inner = (ad[0], ad[1] + ('@in',))
    ty = tname(I, c.tys[0])
    key = T('lockid', Ref(*ad), ty.s if ty is not None else '?')
    g = T('guard', T('ref', inner[0], inner[1]), mode, c.site)
    I.event(st, '@lock', (key, T('mode', mode)), g, c, tuple(T('h', h[0], h[1]) for h in st.held))
    st.held = st.held + ((key, mode, g),)
    if I.lock_havoc and inner[0][0] != 'A':
        v = T('shared', T('ref', inner[0], inner[1]), c.site)
        I.purge(st, v)
        I.write(st, inner, v)
    if mode.startswith('try'):
        ret = T('call', c.path, (key,), c.site)
        out = []
        s2 = st.copy()
        s2.held = s2.held[:-1]
        s2.facts.pop(T('trylock', key, c.site), None)
        return [(st, Ok(g)), (s2, Err(T('wouldblock')))]
    if I.poison:
        s2 = st.copy()
        s2.held = s2.held[:-1]
        return [(st, Ok(g)), (s2, Err(T('poison')))]
    return [(st, Ok(g))]


@model('std::sync::Mutex::into_inner', 'std::sync::RwLock::into_inner')
def m_into_inner(I, st, c):
    return [(st, Ok(project(I.strip(st, c.args[0]), '@in')))]


@model('crossbeam::atomic::AtomicCell::new', 'std::sync::atomic::Atomic::new', 'std::cell::Cell::new',
       'std::cell::RefCell::new')
def m_atomic_new(I, st, c):
    return [(st, Agg('@atomic', '@atomic', ('@in',), (c.args[0],)))]


# ------------------------------------------------------------------ closures
@model('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def m_call(I, st, c):
    f = c.args[0]
    if c.path != 'std::ops::FnOnce::call_once':
        f = val(I, st, c, 0) if f.op == 'ref' else f
    args = I.strip(st, c.args[1])
    l = list(args.a) if args.op == 'tup' else [args]
    return I.call_value(st, f, l, c)


# ------------------------------------------------------------------ bytes writers
M['bytes::BufMut::writer'] = lambda I, st, c: [(st, c.args[0])]
M['bytes::buf::Writer::into_inner'] = lambda I, st, c: [(st, c.args[0])]
M['bytes::BytesMut::freeze'] = lambda I, st, c: [(st, c.args[0])]


@model('bytes::Buf::copy_to_bytes')
def m_copy_to_bytes(I, st, c):
    v = val(I, st, c, 0)
    n = c.args[1]
    ad = place(I, st, c, 0)
    if n is I.length(st, v):
        I.write(st, ad, T('seq'))
        return [(st, v)]
    I.write(st, ad, T('sub', v, n, I.length(st, v)))
    return [(st, T('sub', v, Int(0), n))]


@model('std::rt::begin_panic', 'std::rt::panic_fmt', 'core::panicking::panic', 'core::panicking::panic_fmt',
       'core::panicking::unreachable_display', 'core::option::expect_failed', 'core::panicking::assert_failed',
       'core::panicking::panic_display')
def m_panic(I, st, c):
    msg = I.strip(st, c.args[0]) if c.args else UNIT
    return panic(I, st, c, 'panic: ' + (msg.a[1] if is_c(msg, 'str') else 'message'))


M['std::process::exit'] = M['std::process::abort'] = lambda I, st, c: (I.event(st, c.path, c.args, UNIT, c), [])[-1]


@model('std::intrinsics::discriminant_value', 'std::mem::discriminant', 'core::intrinsics::discriminant_value')
def m_discr(I, st, c):
    v = val(I, st, c, 0)
    ty = tname(I, c.tys[0])
    k = I.variant_of(st, v)
    if k is not None and ty is not None:
        for q in I.variants(ty.adt) or ():
            if q['n'] == k:
                return [(st, Int(int(q['d'])))]
    return [(st, T('discr', v, ty.adt) if ty is not None and ty.adt else T('discrx', v))]


# ------------------------------------------------------------------ the less common combinators
@model('std::option::Option::is_none_or', 'std::result::Result::is_err_and')
def m_bad_or(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v == 'None':
            out.append((s, TRUE))
        elif v == 'Ok':
            out.append((s, FALSE))
        else:
            out.extend(I.call_value(s, c.args[1], [I.payload(x, v)], c))
    return out


@model('std::option::Option::inspect', 'std::result::Result::inspect', 'std::result::Result::inspect_err')
def m_inspect(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    err = c.path.endswith('_err')
    out = []
    for s, v in fs:
        if (v in GOOD) != err:
            p = I.payload(x, v)
            out.extend((s2, wrap_like(v, p) if v in GOOD else Err(p))
                       for s2, _ in I.call_value(s, c.args[1], [Ref(('P', p), ())], c))
        else:
            out.append((s, c.args[0]))
    return out


@model('std::option::Option::transpose', 'std::result::Result::transpose')
def m_transpose(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v == 'None':
            out.append((s, Ok(NONE)))
        elif v == 'Err':
            out.append((s, Some(Err(I.payload(x, v)))))
        else:
            p = I.payload(x, v)
            for s2, v2 in I.fork_variant(s, p, RES if v == 'Some' else OPT):
                if v2 == 'None':
                    out.append((s2, NONE))
                elif v2 == 'Err':
                    out.append((s2, Err(I.payload(p, v2))))
                else:
                    q = I.payload(p, v2)
                    out.append((s2, Ok(Some(q)) if v == 'Some' else Some(Ok(q))))
    return out


@model('std::option::Option::flatten', 'std::result::Result::flatten')
def m_flatten(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    return [(s, I.payload(x, v) if v in GOOD else NONE if v == 'None' else Err(I.payload(x, v))) for s, v in fs]


@model('std::result::Result::copied', 'std::result::Result::cloned')
def m_rcloned(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    return [(s, Ok(I.strip(s, I.payload(x, v))) if v == 'Ok' else Err(I.payload(x, v))) for s, v in fs]


@model('std::option::Option::zip')
def m_ozip(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        if v == 'None':
            out.append((s, NONE))
            continue
        for s2, v2 in I.fork_variant(s, c.args[1], OPT):
            out.append((s2, NONE if v2 == 'None' else Some(T('tup', I.payload(x, v), I.payload(c.args[1], v2)))))
    return out


@model('std::option::Option::xor')
def m_xor(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    out = []
    for s, v in fs:
        for s2, v2 in I.fork_variant(s, c.args[1], OPT):
            out.append((s2, NONE if v == v2 else x if v == 'Some' else c.args[1]))
    return out


@model('std::option::Option::get_or_insert', 'std::option::Option::get_or_insert_with')
def m_goi(I, st, c):
    x, fs = fork_ty(I, st, c)
    if fs is None:
        return NotImplemented
    ad = place(I, st, c, 0)
    r = Ref(ad[0], ad[1] + (('as', 'Some'), '0'))
    out = []
    for s, v in fs:
        if v == 'Some':
            out.append((s, r))
        else:
            for s2, y in I.call_value(s, c.args[1], [], c) if c.path.endswith('_with') else [(s, c.args[1])]:
                I.write(s2, ad, Some(y))
                out.append((s2, r))
    return out


@model('core::bool::<impl bool>::then', 'core::bool::<impl bool>::then_some', 'std::primitive::bool::then',
       'std::primitive::bool::then_some')
def m_then(I, st, c):
    out = []
    for s, k in I.fork_bool(st, c.args[0]):
        if not k:
            out.append((s, NONE))
        elif c.path.endswith('then'):
            out.extend((s2, Some(r)) for s2, r in I.call_value(s, c.args[1], [], c))
        else:
            out.append((s, Some(c.args[1])))
    return out


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def m_splitfirst(I, st, c):
    ad = place(I, st, c, 0)
    v = val(I, st, c, 0)
    n = I.length(st, v)
    first = c.path.endswith('first')
    out = []
    for s, k in I.fork_bool(st, I.binop(st, 'Eq', n, Int(0))):
        if k:
            out.append((s, NONE))
            continue
        last = I.binop(s, 'Sub', n, Int(1))
        e = Ref(ad[0], ad[1] + (('idx', Int(0) if first else last),))
        rest = substr(I, s, v, Int(1), n, n) if first else substr(I, s, v, Int(0), last, n)
        out.append((s, Some(T('tup', e, T('ref', ('P', rest), ())))))
    return out


@model('core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut')
def m_firstmut(I, st, c):
    ad = place(I, st, c, 0)
    n = I.length(st, val(I, st, c, 0))
    out = []
    for s, k in I.fork_bool(st, I.binop(st, 'Eq', n, Int(0))):
        if k:
            out.append((s, NONE))
        else:
            at = Int(0) if c.path.endswith('first_mut') else I.binop(s, 'Sub', n, Int(1))
            out.append((s, Some(Ref(ad[0], ad[1] + (('idx', at),)))))
    return out


@model('core::slice::<impl [T]>::split_at', 'core::str::<impl str>::split_at')
def m_splitat(I, st, c):
    v, k = val(I, st, c, 0), c.args[1]
    n = I.length(st, v)
    cond = I.binop(st, 'Le', k, n)
    if I.truth(st, cond) is not True and I.on_oblig:
        I.on_oblig('slice-end', None, {'hi': k, 'len': n}, st, c.fn, c.sp, cond, True)
    if not I.assume(st, cond, True):
        return panic(I, st, c, 'slice out of range')
    if 'str' in c.path and I.on_oblig and not (is_c(k, 'int') and k.a[1] == 0):
        I.on_oblig('char-boundary', None, {'lo': Int(0), 'hi': k, 'str': v}, st, c.fn, c.sp, T('charb', v, Int(0), k), True)
    return [(st, T('tup', T('ref', ('P', substr(I, st, v, Int(0), k, n)), ()),
                   T('ref', ('P', substr(I, st, v, k, n, n)), ())))]


@model('std::iter::Iterator::zip')
def m_izip(I, st, c):
    return [(st, T('iter', 'zip', c.args[0], c.args[1]))]


@model('std::iter::Iterator::fuse', 'std::iter::Iterator::by_ref_owned')
def m_fuse(I, st, c):
    return [(st, c.args[0])]


@model('std::iter::Iterator::try_fold')
def m_tryfold(I, st, c):
    it = drive_it(I, st, c)
    acc = ('F', c.site)
    st.store[acc] = c.args[1]
    adt = c.dty.adt

    def step(s, e):
        out = []
        for s2, r in I.call_value(s, c.args[2], [s.store[acc], e], c):
            for s3, v in I.fork_variant(s2, r, adt):
                if v in GOOD:
                    s3.store[acc] = I.payload(r, v)
                    out.append((s3, None))
                else:
                    out.append((s3, r))
        return out
    if adt not in (OPT, RES):
        return NotImplemented
    res = I.drive(st, c, step, lambda s: Ok(s.store[acc]) if adt == RES else Some(s.store[acc]), it)
    for s, _ in res:
        s.store.pop(acc, None)
    return res


for _n in ('is_ascii_digit', 'is_ascii_alphabetic', 'is_ascii_whitespace', 'is_ascii_alphanumeric', 'is_ascii_hexdigit',
           'is_ascii_uppercase', 'is_ascii_lowercase', 'is_ascii_punctuation', 'is_ascii_control', 'is_ascii_graphic',
           'to_ascii_lowercase', 'to_ascii_uppercase', 'eq_ignore_ascii_case'):
    if 'core::num::<impl u8>::' + _n not in M:
        pure('core::num::<impl u8>::' + _n)
for _n in ('core::str::<impl str>::is_char_boundary', 'std::str::<impl str>::repeat'):
    if _n not in M:
        pure(_n)


@model('std::ops::RangeInclusive::new')
def m_rangeincl(I, st, c):
    return [(st, Agg('std::ops::RangeInclusive', 'RangeInclusive', ('start', 'end', 'exhausted'), (c.args[0], c.args[1], FALSE)))]


@model('std::ops::Range::contains', 'std::ops::RangeInclusive::contains', 'std::ops::RangeFrom::contains',
       'std::ops::RangeTo::contains')
def m_rangecontains(I, st, c):
    r, x = val(I, st, c, 0), val(I, st, c, 1)
    if r.op != 'agg':
        return NotImplemented
    conds = []
    if 'start' in r.a[2]:
        conds.append(I.binop(st, 'Le', project(r, 'start'), x))
    if 'end' in r.a[2]:
        conds.append(I.binop(st, 'Le' if r.a[0].endswith('Inclusive') else 'Lt', x, project(r, 'end')))
    cur, out = [st], []
    for k in conds:
        nxt = []
        for s in cur:
            for s2, b in I.fork_bool(s, k):
                if b:
                    nxt.append(s2)
                else:
                    out.append((s2, FALSE))
        cur = nxt
    return out + [(s, TRUE) for s in cur]


INTS = {'u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'u128', 'i128'}


def int_op(name, o, other):
    """Arithmetic through references to numbers is the arithmetic itself, with its overflow check"""
    def h(I, st, c):
        ts = [tname(I, t) for t in c.tys[:2]]
        if len(ts) < 2 or any(t is None or t.s not in INTS for t in ts):
            return other(I, st, c) if other else NotImplemented
        a, b = val(I, st, c, 0), val(I, st, c, 1)
        v = I.binop(st, o, a, b)
        ov = FALSE if is_c(v, 'int') else I.binop(st, 'Lt', a, b) if ts[0].s.startswith('u') and o == 'Sub' else T('ovf', o, a, b)
        if o in ('Add', 'Sub', 'Mul'):
            if I.truth(st, ov) is not False and I.on_oblig:
                I.on_oblig('overflow', o, {'a': a, 'b': b, 'ty': ts[0]}, st, c.fn, c.sp, ov, False)
            if not I.assume(st, ov, False):
                return panic(I, st, c, 'overflow')
        else:
            z = I.binop(st, 'Eq', b, Int(0))
            if I.truth(st, z) is not False and I.on_oblig:
                I.on_oblig('divzero', o, {'a': a, 'b': b, 'ty': ts[0]}, st, c.fn, c.sp, z, False)
            if not I.assume(st, z, False):
                return panic(I, st, c, 'division by zero')
        return [(st, v)]
    M[name] = h


for _o, _n in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem')):
    int_op(f'std::ops::{_o}::{_n}', _o, M.get(f'std::ops::{_o}::{_n}'))


def known_range(I, st, c, r, n):
    """lo, hi of a range over a sequence of known length, or None"""
    if r.op == 'agg':
        lo = project(r, 'start') if 'start' in r.a[2] else Int(0)
        hi = project(r, 'end') if 'end' in r.a[2] else n
        if is_c(lo, 'int') and is_c(hi, 'int') and is_c(n, 'int'):
            h = hi.a[1] + (1 if r.a[0].endswith('Inclusive') else 0)
            if 0 <= lo.a[1] <= h <= n.a[1]:
                return lo.a[1], h
    elif r.op == 'zst' and is_c(n, 'int'):
        return 0, n.a[1]
    return None


@model('std::vec::Vec::drain', 'std::collections::VecDeque::drain')
def m_drain(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    l = unlist(v)
    k = known_range(I, st, c, I.strip(st, c.args[1]), I.length(st, v)) if l is not None else None
    if k is None:
        return NotImplemented
    I.write(st, ad, T('seq', *(l[:k[0]] + l[k[1]:])))
    return [(st, T('iter', 'val', T('seq', *l[k[0]:k[1]]), Int(0)))]


@model('std::vec::Vec::split_off', 'std::collections::VecDeque::split_off')
def m_splitoff(I, st, c):
    ad = place(I, st, c, 0)
    l = unlist(I.read(st, ad))
    if l is None or not is_c(c.args[1], 'int') or c.args[1].a[1] > len(l):
        return NotImplemented
    k = c.args[1].a[1]
    I.write(st, ad, T('seq', *l[:k]))
    return [(st, T('seq', *l[k:]))]


@model('core::slice::<impl [T]>::rotate_left', 'core::slice::<impl [T]>::rotate_right')
def m_rotate(I, st, c):
    ad = place(I, st, c, 0)
    l = unlist(I.read(st, ad))
    if l is None or not is_c(c.args[1], 'int') or c.args[1].a[1] > len(l):
        return NotImplemented
    k = c.args[1].a[1] if c.path.endswith('left') else len(l) - c.args[1].a[1]
    I.write(st, ad, T('seq', *(l[k:] + l[:k])))
    return [(st, UNIT)]


@model('core::slice::<impl [T]>::swap')
def m_sswap(I, st, c):
    ad = place(I, st, c, 0)
    l = unlist(I.read(st, ad))
    if l is None or any(not is_c(x, 'int') or x.a[1] >= len(l) for x in c.args[1:3]):
        return NotImplemented
    i, j = (x.a[1] for x in c.args[1:3])
    l[i], l[j] = l[j], l[i]
    I.write(st, ad, T('seq', *l))
    return [(st, UNIT)]
