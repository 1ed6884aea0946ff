"""More of the standard library: editing of texts, byte buffers and lists, queues, characters, checked arithmetic."""
import models
import seg
from models import *
from models import M, place, val, tname, panic, unlist, mapget, maphas, known_range, seqstr
from terms import *

S_, L_ = 'core::str::<impl str>::', 'core::slice::<impl [T]>::'
STR = 'std::string::String'


def more(*names):
    """A model for functions without one; where it does not apply, the function stays unknown (or as it was)."""
    def d(f):
        for n in names:
            o = M.get(n)

            def w(I, st, c, f=f, o=o):
                r = f(I, st, c)
                if r is not NotImplemented:
                    return r
                return o(I, st, c) if o is not None else NotImplemented
            M[n] = w
        return f
    return d


def text(I, c):
    ty = tname(I, c.tys[0])
    return ty is not None and ty.s == STR


def part(I, st, v, lo, hi):
    """v[lo..hi], which is within v"""
    l = unlist(v)
    if l is not None and is_c(lo, 'int') and is_c(hi, 'int') and not (I.segmode and seg.parts(v) is not None and not (v.op == 'seq' and v.a)):
        return T('seq', *l[lo.a[1]:hi.a[1]])
    if lo is hi:
        return T('seq')
    return models.substr(I, st, v, lo, hi, I.length(st, v))


def bounds(I, st, r, n):
    """lo, hi of a range value over a sequence of length n, or None"""
    if r.op in ('zst', 'tup') and not r.a or r.op == 'zst':
        return Int(0), n
    if r.op != 'agg':
        return None
    nm = r.a[0].split('::')[-1]
    if nm == 'RangeFull':
        return Int(0), n
    lo = project(r, 'start') if 'start' in r.a[2] else Int(0)
    hi = project(r, 'end') if 'end' in r.a[2] else n
    if nm.endswith('Inclusive'):
        hi = I.binop(st, 'Add', hi, Int(1))
    return lo, hi


def within(I, st, c, lo, hi, n):
    """The state in which lo <= hi <= n, or None: the call panics otherwise"""
    for a, b in ((lo, hi), (hi, n)):
        cond = I.binop(st, 'Le', a, b)
        if I.truth(st, cond) is not True and not I.assume(st, cond, True):
            panic(I, st, c, 'out of bounds')
            return False
    return True


def joined(a, b):
    la, lb = unlist(a), unlist(b)
    if la is not None and lb is not None:
        return T('seq', *la, *lb)
    return cat([seqstr(a), seqstr(b)])


def astext(I, c, v):
    return Str('') if text(I, c) and v.op == 'seq' and not v.a else v


# ------------------------------------------------------------------ cutting
@more('bytes::Bytes::split_to', 'bytes::BytesMut::split_to', 'bytes::Bytes::split_off', 'bytes::BytesMut::split_off', 'std::string::String::split_off',
      'std::vec::Vec::split_off', 'std::collections::VecDeque::split_off')
def l_cut(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    n = I.length(st, v)
    if not within(I, st, c, Int(0), c.args[1], n):
        return []
    head, tail = part(I, st, v, Int(0), c.args[1]), part(I, st, v, c.args[1], n)
    head, tail = astext(I, c, head), astext(I, c, tail)
    to = c.path.endswith('split_to')
    I.write(st, ad, tail if to else head)
    return [(st, head if to else tail)]


@more('bytes::BytesMut::split')
def l_split(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    I.write(st, ad, T('seq'))
    return [(st, v)]


@more('bytes::Bytes::clear', 'std::collections::VecDeque::clear')
def l_clear(I, st, c):
    I.write(st, place(I, st, c, 0), T('seq'))
    return [(st, UNIT)]


@more('bytes::Buf::advance')
def l_advance(I, st, c):
    ty = I.p.types[c.tys[0].args[0]] if c.tys[0] is not None and c.tys[0].k == 'ref' else None
    if ty is None or not (ty.adt or '').startswith('bytes::'):
        return NotImplemented
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    n = I.length(st, v)
    if not within(I, st, c, Int(0), c.args[1], n):
        return []
    I.write(st, ad, part(I, st, v, c.args[1], n))
    return [(st, UNIT)]


@more('bytes::Bytes::truncate', 'bytes::BytesMut::truncate', 'std::string::String::truncate')
def l_truncate(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    n = I.length(st, v)
    out = []
    for s, k in I.fork_bool(st, I.binop(st, 'Lt', c.args[1], n)):
        if k:
            I.write(s, ad, astext(I, c, part(I, s, v, Int(0), c.args[1])))
        out.append((s, UNIT))
    return out


@more('bytes::Bytes::slice')
def l_slice(I, st, c):
    v = val(I, st, c, 0)
    n = I.length(st, v)
    b = bounds(I, st, I.strip(st, c.args[1]), n)
    if b is None:
        return NotImplemented
    if not within(I, st, c, *b, n):
        return []
    return [(st, part(I, st, v, *b))]


@more('bytes::Buf::remaining')
def l_remaining(I, st, c):
    return [(st, I.length(st, val(I, st, c, 0)))]


@more('bytes::Buf::has_remaining')
def l_has(I, st, c):
    return [(st, I.binop(st, 'Lt', Int(0), I.length(st, val(I, st, c, 0))))]


@more('bytes::Buf::chunk', 'bytes::Bytes::copy_from_slice', 'bytes::Bytes::from_static')
def l_same(I, st, c):
    return [(st, val(I, st, c, 0))]


# ------------------------------------------------------------------ editing
@more('std::string::String::insert_str', 'std::string::String::insert')
def l_insert(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    x = val(I, st, c, 2)
    if c.path.endswith('::insert'):
        if not is_c(x, 'char'):
            return NotImplemented
        x = Str(chr(x.a[1]))
    n = I.length(st, v)
    at = c.args[1]
    if not within(I, st, c, Int(0), at, n):
        return []
    a = part(I, st, v, Int(0), at) if at is not Int(0) else Str('')
    b = part(I, st, v, at, n) if at is not n else Str('')
    I.write(st, ad, cat([seqstr(a), seqstr(x), seqstr(b)]))
    return [(st, UNIT)]


@more('std::string::String::replace_range')
def l_replace_range(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    n = I.length(st, v)
    b = bounds(I, st, I.strip(st, c.args[1]), n)
    if b is None:
        return NotImplemented
    if not within(I, st, c, *b, n):
        return []
    x = val(I, st, c, 2)
    I.write(st, ad, cat([seqstr(part(I, st, v, Int(0), b[0])), seqstr(x), seqstr(part(I, st, v, b[1], n))]))
    return [(st, UNIT)]


@more('std::string::String::drain', 'std::vec::Vec::drain', 'std::collections::VecDeque::drain')
def l_drain(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    n = I.length(st, v)
    b = bounds(I, st, I.strip(st, c.args[1]), n)
    if b is None:
        return NotImplemented
    l = unlist(v)
    if l is not None and not text(I, c) and is_c(b[0], 'int') and is_c(b[1], 'int'):
        return models.m_drain(I, st, c)
    if not within(I, st, c, *b, n):
        return []
    mid = part(I, st, v, *b)
    I.write(st, ad, astext(I, c, joined(part(I, st, v, Int(0), b[0]), part(I, st, v, b[1], n))))
    if text(I, c):
        return [(st, T('iter', 'seg', mid, T('sp', 0, 0, 0), 'char') if I.segmode and seg.parts(mid) is not None else T('call', 'chars', (mid,)))]
    return [(st, T('iter', 'val', mid, Int(0)))]


@more('std::string::String::remove')
def l_sremove(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    if not I.segmode or seg.parts(v) is None:
        return NotImplemented
    ts = seg.toks(v)
    i = seg.boundary(ts, c.args[1])
    if i is None or i >= len(ts) or not isinstance(ts[i], str):
        return NotImplemented
    I.write(st, ad, seg.untoks(ts[:i] + ts[i + 1:]))
    return [(st, C('char', ord(ts[i])))]


@more('std::vec::Vec::retain', 'std::vec::Vec::retain_mut', 'std::collections::VecDeque::retain')
def l_retain(I, st, c):
    ad = place(I, st, c, 0)
    l = unlist(I.read(st, ad))
    if l is None or len(l) > 12:
        return NotImplemented
    cur = [(st, [])]
    for x in l:
        nxt = []
        for s, kept in cur:
            for s2, r in I.call_value(s, c.args[1], [Ref(('P', x), ())], c):
                for s3, k in I.fork_bool(s2, r):
                    nxt.append((s3, kept + [x] if k else kept))
        cur = nxt
    for s, kept in cur:
        I.write(s, ad, T('seq', *kept))
    return [(s, UNIT) for s, _ in cur]


@more('std::string::String::retain')
def l_sretain(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    if not is_c(v, 'str') or len(v.a[1]) > 40:
        return NotImplemented
    cur = [(st, '')]
    for ch in v.a[1]:
        nxt = []
        for s, kept in cur:
            for s2, r in I.call_value(s, c.args[1], [C('char', ord(ch))], c):
                for s3, k in I.fork_bool(s2, r):
                    nxt.append((s3, kept + ch if k else kept))
        cur = nxt
    for s, kept in cur:
        I.write(s, ad, Str(kept))
    return [(s, UNIT) for s, _ in cur]


@more('std::collections::HashMap::retain')
def l_mretain(I, st, c):
    ad = place(I, st, c, 0)
    es = seg.entries(I, st, I.read(st, ad), 6)
    if es is None:
        return NotImplemented
    cur = [(st, [])]
    for k, v in reversed(es):
        nxt = []
        for s, kept in cur:
            cell = ('RV', c.site, k)
            s.store[cell] = v
            for s2, r in I.call_value(s, c.args[1], [Ref(('P', k), ()), Ref(cell, ())], c):
                for s3, b in I.fork_bool(s2, r):
                    nxt.append((s3, kept + [(k, s3.store[cell])] if b else kept))
        cur = nxt
    for s, kept in cur:
        m = T('map0')
        for k, v in kept:
            m = T('insert', m, k, v)
        I.write(s, ad, m)
        for k, _ in es:
            s.store.pop(('RV', c.site, k), None)
    return [(s, UNIT) for s, _ in cur]


@more(L_ + 'reverse')
def l_reverse(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    l = unlist(v)
    if l is None:
        return NotImplemented
    I.write(st, ad, T('seq', *reversed(l)))
    return [(st, UNIT)]


@more('std::vec::Vec::dedup')
def l_dedup(I, st, c):
    ad = place(I, st, c, 0)
    l = unlist(I.read(st, ad))
    if l is None or len(l) > 8:
        return NotImplemented
    cur = [(st, l[:1])]
    for x in l[1:]:
        nxt = []
        for s, kept in cur:
            for s2, k in I.fork_bool(s, I.binop(s, 'Eq', I.strip(s, kept[-1]), I.strip(s, x))):
                nxt.append((s2, kept if k else kept + [x]))
        cur = nxt
    for s, kept in cur:
        I.write(s, ad, T('seq', *kept))
    return [(s, UNIT) for s, _ in cur]


@more('std::vec::Vec::resize', 'bytes::BytesMut::resize')
def l_resize(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    l = unlist(v)
    n = c.args[1]
    if l is not None and is_c(n, 'int') and n.a[1] <= 64:
        k = n.a[1]
        I.write(st, ad, T('seq', *(l[:k] + [c.args[2]] * (k - len(l)))))
        return [(st, UNIT)]
    ln = I.length(st, v)
    out = []
    for s, less in I.fork_bool(st, I.binop(st, 'Lt', n, ln)):
        if less:
            I.write(s, ad, part(I, s, v, Int(0), n))
        elif n is not ln:
            return NotImplemented
        out.append((s, UNIT))
    return out


# ------------------------------------------------------------------ queues
@more('std::collections::VecDeque::push_front')
def l_pushf(I, st, c):
    ad = place(I, st, c, 0)
    l = unlist(I.read(st, ad))
    if l is None or len(l) > 40:
        return NotImplemented
    I.write(st, ad, T('seq', c.args[1], *l))
    return [(st, UNIT)]


@more('std::collections::VecDeque::pop_front', 'std::collections::VecDeque::pop_back')
def l_popf(I, st, c):
    ad = place(I, st, c, 0)
    l = unlist(I.read(st, ad))
    if l is None:
        return NotImplemented
    if not l:
        return [(st, NONE)]
    front = c.path.endswith('front')
    I.write(st, ad, T('seq', *(l[1:] if front else l[:-1])))
    return [(st, Some(l[0] if front else l[-1]))]


@more('std::collections::VecDeque::front', 'std::collections::VecDeque::back', 'std::collections::VecDeque::front_mut', 'std::collections::VecDeque::back_mut')
def l_front(I, st, c):
    ad = place(I, st, c, 0)
    l = unlist(I.read(st, ad))
    if l is None:
        return NotImplemented
    if not l:
        return [(st, NONE)]
    i = 0 if 'front' in c.path.split('::')[-1] else len(l) - 1
    return [(st, Some(Ref(ad[0], ad[1] + (('idx', Int(i)),))))]


for _n in ('new', 'with_capacity'):
    M.setdefault('std::collections::VecDeque::' + _n, lambda I, st, c: [(st, T('seq'))])
for _n in ('iter', 'iter_mut'):
    if 'std::collections::VecDeque::' + _n not in M:
        M['std::collections::VecDeque::' + _n] = M['std::vec::Vec::iter']


# ------------------------------------------------------------------ maps
@more('std::collections::HashMap::remove_entry')
def l_remove_entry(I, st, c):
    r = M['std::collections::HashMap::remove'](I, st, c)
    if r is NotImplemented:
        return r
    k = val(I, st, c, 1)
    return [(s, Some(T('tup', k, I.payload(v, 'Some'))) if I.variant_of(s, v) == 'Some' else NONE) for s, v in r]


@more('std::collections::HashMap::get_key_value')
def l_gkv(I, st, c):
    r = M['std::collections::HashMap::get'](I, st, c)
    if r is NotImplemented:
        return r
    k = val(I, st, c, 1)
    return [(s, Some(T('tup', Ref(('P', k), ()), I.payload(v, 'Some'))) if I.variant_of(s, v) == 'Some' else NONE) for s, v in r]


for _n in ('reserve', 'shrink_to_fit'):
    M.setdefault('std::collections::HashMap::' + _n, lambda I, st, c: [(st, UNIT)])


# ------------------------------------------------------------------ characters
def char_is(n, ch):
    o = ord(ch)
    asc = o < 128
    return {
        'is_ascii': asc, 'is_ascii_digit': '0' <= ch <= '9', 'is_ascii_alphabetic': asc and ch.isalpha(), 'is_ascii_alphanumeric': asc and ch.isalnum(),
        'is_ascii_hexdigit': ch in '0123456789abcdefABCDEF', 'is_ascii_uppercase': 'A' <= ch <= 'Z', 'is_ascii_lowercase': 'a' <= ch <= 'z',
        'is_ascii_whitespace': ch in ' \t\n\r\x0c', 'is_ascii_control': o < 32 or o == 127, 'is_ascii_graphic': 32 < o < 127,
        'is_ascii_punctuation': 32 < o < 127 and not ch.isalnum(),
        'is_whitespace': ch.isspace() and ch not in '\x1c\x1d\x1e\x1f', 'is_alphabetic': ch.isalpha(), 'is_alphanumeric': ch.isalnum(), 'is_numeric': ch.isnumeric(),
        'is_control': o < 32 or 127 <= o < 160, 'is_uppercase': ch.isupper(), 'is_lowercase': ch.islower(),
    }[n]


def simple(name, f):
    """A function of one constant, folded; otherwise a value that depends on the argument alone."""
    if name in M:
        o = M[name]
    else:
        models.pure(name)
        o = M[name]

    def w(I, st, c):
        x = val(I, st, c, 0)
        r = f(I, st, c, x)
        return o(I, st, c) if r is None else [(st, r)]
    M[name] = w


CH, U8 = 'core::char::methods::<impl char>::', 'core::num::<impl u8>::'
for _n in ('is_ascii', 'is_ascii_digit', 'is_ascii_alphabetic', 'is_ascii_alphanumeric', 'is_ascii_hexdigit', 'is_ascii_uppercase', 'is_ascii_lowercase',
           'is_ascii_whitespace', 'is_ascii_control', 'is_ascii_graphic', 'is_ascii_punctuation', 'is_whitespace', 'is_alphabetic', 'is_alphanumeric', 'is_numeric',
           'is_control', 'is_uppercase', 'is_lowercase'):
    def _f(I, st, c, x, n=_n):
        if is_c(x, 'char') and x.a[1] < 128:
            return Bool(char_is(n, chr(x.a[1])))

    def _g(I, st, c, x, n=_n):
        if is_c(x, 'int'):
            return Bool(char_is(n, chr(x.a[1])) if x.a[1] < 128 else n == 'is_ascii' and False)
    simple(CH + _n, _f)
    if _n.startswith('is_ascii'):
        simple(U8 + _n, _g)
for _n in ('to_ascii_lowercase', 'to_ascii_uppercase'):
    def _f(I, st, c, x, n=_n):
        if is_c(x, 'char') or is_c(x, 'int'):
            o = x.a[1]
            if o < 128:
                o = ord(chr(o).lower() if 'lower' in n else chr(o).upper())
            return C('char', o) if x.a[0] == 'char' else Int(o)
    simple(CH + _n, _f)
    simple(U8 + _n, _f)
simple(CH + 'len_utf8', lambda I, st, c, x: Int(len(chr(x.a[1]).encode())) if is_c(x, 'char') else None)


def _digit(I, st, c, x):
    r = c.args[1]
    if is_c(x, 'char') and is_c(r, 'int'):
        try:
            return Some(Int(int(chr(x.a[1]), r.a[1]))) if x.a[1] < 128 and chr(x.a[1]).isalnum() else NONE
        except ValueError:
            return NONE


simple(CH + 'to_digit', _digit)
simple(CH + 'is_digit', lambda I, st, c, x: None if _digit(I, st, c, x) is None else Bool(_digit(I, st, c, x) is not NONE))
simple(S_ + 'is_ascii', lambda I, st, c, x: Bool(x.a[1].isascii()) if is_c(x, 'str') else None)


# ------------------------------------------------------------------ numbers
BITS = {'usize': 64, 'u64': 64, 'u32': 32, 'u16': 16, 'u8': 8, 'u128': 128}


def fits(v, ty):
    if ty in BITS:
        return 0 <= v < 1 << BITS[ty]
    b = 64 if ty == 'isize' else int(ty[1:])
    return -(1 << b - 1) <= v < 1 << b - 1


def checked(ty, name, op):
    def h(I, st, c):
        a, b = val(I, st, c, 0), val(I, st, c, 1)
        if op in ('Div', 'Rem'):
            if ty not in BITS:
                return NotImplemented
            return [(s, NONE if k else Some(I.binop(s, op, a, b))) for s, k in I.fork_bool(st, I.binop(st, 'Eq', b, Int(0)))]
        v = I.binop(st, op, a, b)
        if is_c(v, 'int'):
            return [(st, Some(v) if fits(v.a[1], ty) else NONE)]
        bad = I.binop(st, 'Lt', a, b) if op == 'Sub' and ty in BITS else T('ovf', op, a, b)
        return [(s, NONE if k else Some(I.binop(s, op, a, b))) for s, k in I.fork_bool(st, bad)]
    more(name)(h)


def saturating(ty, name, op):
    def h(I, st, c):
        a, b = val(I, st, c, 0), val(I, st, c, 1)
        v = I.binop(st, op, a, b)
        if is_c(v, 'int'):
            hi = (1 << BITS[ty]) - 1
            return [(st, Int(max(0, min(hi, v.a[1]))))]
        if op == 'Sub':
            k = I.truth(st, I.binop(st, 'Lt', a, b))
            if k is not None:
                return [(st, Int(0) if k else v)]
        return NotImplemented
    if name not in M:
        models.pure(name)
    more(name)(h)


def absdiff(name):
    def h(I, st, c):
        a, b = val(I, st, c, 0), val(I, st, c, 1)
        return [(s, I.binop(s, 'Sub', b, a) if k else I.binop(s, 'Sub', a, b)) for s, k in I.fork_bool(st, I.binop(st, 'Lt', a, b))]
    more(name)(h)


for _t in ('usize', 'u64', 'u32', 'u16', 'u8', 'i64', 'i32'):
    for _o in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
        checked(_t, f'core::num::<impl {_t}>::checked_{_o.lower()}', _o)
        if _t in BITS and _o in ('Add', 'Sub', 'Mul'):
            saturating(_t, f'core::num::<impl {_t}>::saturating_{_o.lower()}', _o)
    if _t in BITS:
        absdiff(f'core::num::<impl {_t}>::abs_diff')
    for _n in ('pow', 'rem_euclid', 'div_ceil', 'leading_zeros', 'trailing_zeros', 'count_ones', 'wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        if f'core::num::<impl {_t}>::{_n}' not in M:
            models.pure(f'core::num::<impl {_t}>::{_n}')


@more('std::cmp::Ord::clamp')
def l_clamp(I, st, c):
    x, lo, hi = (val(I, st, c, i) for i in range(3))
    out = []
    for s, k in I.fork_bool(st, I.binop(st, 'Lt', x, lo)):
        if k:
            out.append((s, lo))
        else:
            out.extend((s2, hi if k2 else x) for s2, k2 in I.fork_bool(s, I.binop(s, 'Lt', hi, x)))
    return out
