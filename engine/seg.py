"""A string domain for parsers and printers: a string is a sequence of known characters and of runs.

A run is any non-empty string over an alphabet (all characters but the excluded ones), of any length. `for`-loops and
iterators over such a string are interpreted to a fixpoint: inside a run the loop is at "one more byte of the run" or
"the run is over", so nothing is assumed about its length. What has been accumulated of a run that is not over yet is an
open part; it becomes stale with each further byte and open again when that byte is appended to it, and the whole run only
if the run ends while it is open. Anything else (a byte dropped, doubled or changed) leaves a term that equals no string.

Only active on analyses with I.segmode set.
"""
from terms import *
import models
from models import M, val, place, tname, display, seqstr, unlist, OPT

SEGS = {}
WS = ' \t\r\n\x0b\x0c'


class Seg:
    def __init__(self, excl, first, last, ne, npre, ni=()):
        self.excl = frozenset(excl)
        self.first = frozenset(first) | self.excl
        self.last = frozenset(last) | self.excl
        self.ne = {Str(n) if isinstance(n, str) else n for n in ne} | {Str(n) for n in ni}
        self.ni = {n.lower() for n in ni}
        self.npre = {Str(n) if isinstance(n, str) else n for n in npre}
        self.codes = frozenset(ord(c) for c in self.excl)
        self.fcodes = frozenset(ord(c) for c in self.first)


def R(name, excl='', solid=True, first='', last='', ne=(), npre=(), ni=()):
    """The run `name`: solid runs neither start nor end with white space; `ne` are strings it differs from (`ni`: in any letter case),
    `npre` ones it does not start with."""
    w = WS if solid else ''
    SEGS[name] = Seg(excl, first + w, last + w, ne, npre, ni)
    return T('run', name, 'w')


UPPER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def lowrun(x):
    """The run in lower case."""
    n = x.a[0]
    if n.endswith('~lower'):
        return x
    if n + '~lower' not in SEGS:
        s = SEGS[n]

        def low(cs):
            return {c for c in cs if not c.isalpha()} | {c for c in cs if c.islower() and c.upper() in cs} | set(UPPER)
        SEGS[n + '~lower'] = Seg(low(s.excl), low(s.first), low(s.last), [Str(k) for k in s.ni], ())
    return T('run', n + '~lower', 'w')


def S(*parts):
    """A segmented string from constants and runs."""
    return cat([Str(p) if isinstance(p, str) else p for p in parts])


def isrun(t):
    return t.op == 'run'


_hr = {}


def hasrun(v):
    r = _hr.get(v)
    if r is None:
        if v.op == 'run':
            r = True
        elif v.op == 'cat':
            r = any(x.op == 'run' for x in v.a)
        else:
            r = False
        _hr[v] = r
    return r


def parts(v):
    """Constant and run parts of a string value, or None if it is no segmented string."""
    if is_c(v, 'str'):
        return [v] if v.a[1] else []
    if v.op == 'run':
        return [v]
    if v.op == 'cat':
        return list(v.a) if all(x.op == 'run' or is_c(x, 'str') for x in v.a) else None
    if v.op in ('seq', 'arr'):
        if not v.a:
            return []
        if all(is_c(x, 'int') for x in v.a):
            return [Str(''.join(chr(x.a[1] & 255) for x in v.a))]
        if all(is_c(x, 'char') for x in v.a):
            return [Str(''.join(chr(x.a[1]) for x in v.a))]
    return None


def toks(v):
    p = parts(v)
    if p is None:
        return None
    out = []
    for x in p:
        if isrun(x):
            out.append(x)
        else:
            out.extend(x.a[1])
    return out


def untoks(ts):
    return cat([Str(x) if isinstance(x, str) else x for x in ts])


def seg(x):
    return SEGS[x.a[0]]


# ------------------------------------------------------------------ lengths
def lin(t):
    """(multiset of atoms, constant) of a linear term, or None"""
    if is_c(t, 'int'):
        return {}, t.a[1]
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        a, b = lin(t.a[1]), lin(t.a[2])
        if a is None or b is None:
            return None
        s = 1 if t.a[0] == 'Add' else -1
        d = dict(a[0])
        for k, n in b[0].items():
            d[k] = d.get(k, 0) + s * n
            if not d[k]:
                del d[k]
        return d, a[1] + s * b[1]
    return {t: 1}, 0


def unlin(d, c):
    d = dict(d)
    # the length of a stale part plus the current byte is the length of the open part
    for k in list(d):
        if k.op == 'len' and k.a[0].op == 'run' and k.a[0].a[1] == 's' and c >= d[k] > 0:
            c -= d[k]
            d[T('len', T('run', k.a[0].a[0], 'o'))] = d.pop(k)
    r = None
    for k in sorted(d, key=lambda x: x.i):
        for _ in range(abs(d[k])):
            if r is None:
                r = k if d[k] > 0 else T('bin', 'Sub', Int(0), k)
            else:
                r = T('bin', 'Add' if d[k] > 0 else 'Sub', r, k)
    if r is None:
        return Int(c)
    return r if c == 0 else T('bin', 'Add', r, Int(c))


def haslen(t):
    if t.op == 'len':
        return t.a[0].op == 'run'
    return t.op == 'bin' and t.a[0] in ('Add', 'Sub') and (haslen(t.a[1]) or haslen(t.a[2]))


def sgn(d, c):
    """Sign of a linear term whose atoms are lengths of runs (at least 1): -1, 0, 1 or None"""
    if not d:
        return (c > 0) - (c < 0)
    if any(not (k.op == 'len' and k.a[0].op == 'run') for k in d):
        return None
    if all(n > 0 for n in d.values()) and c + sum(d.values()) > 0:
        return 1
    if all(n < 0 for n in d.values()) and c + sum(d.values()) < 0:
        return -1
    return None


def diffl(a, b):
    x, y = lin(a), lin(b)
    d = dict(x[0])
    for k, n in y[0].items():
        d[k] = d.get(k, 0) - n
        if not d[k]:
            del d[k]
    return d, x[1] - y[1]


def length(v):
    p = parts(v)
    d, c = {}, 0
    for x in p:
        if isrun(x):
            k = T('len', x)
            d[k] = d.get(k, 0) + 1
        else:
            c += len(x.a[1].encode())
    return unlin(d, c)


def binop(I, st, op, a, b):
    """Hook of the interpreter's arithmetic; None = not ours."""
    if op in ('Add', 'Sub') and (haslen(a) or haslen(b)):
        x, y = lin(a), lin(b)
        s = 1 if op == 'Add' else -1
        d = dict(x[0])
        for k, n in y[0].items():
            d[k] = d.get(k, 0) + s * n
            if not d[k]:
                del d[k]
        return unlin(d, x[1] + s * y[1])
    if op in ('Eq', 'Lt') and (haslen(a) or haslen(b)):
        s = sgn(*diffl(a, b))
        if s is not None:
            return Bool(s == 0 if op == 'Eq' else s < 0)
        d, c = diffl(a, b)
        if op == 'Eq' and len(d) == 1 and c < 0 and list(d.values()) == [1]:
            return T('bin', 'Eq', list(d)[0], Int(-c))
        return None
    if op == 'Eq':
        for x, y in ((a, b), (b, a)):
            if x.op == 'segb' and is_c(y) and y.a[0] in ('char', 'int'):
                n = y.a[1]
                k = st.facts.get(x)
                if k is not None:
                    return Bool(k == n)
                if n in st.facts.get(('ne', x), ()):
                    return FALSE
                return T('bin', 'Eq', x, Int(n))
        if hasrun(a) or hasrun(b):
            r = equal(a, b)
            if r is not None:
                return Bool(r)
    return None


def feasible(facts):
    """False if the facts spell out a text for a run that the run is known not to be."""
    text = {}
    for f, k in facts.items():
        if type(f) is not tuple and f.op == 'el' and f.a[0].op == 'run' and is_c(f.a[1], 'int') and type(k) is int:
            text.setdefault(f.a[0], {})[f.a[1].a[1]] = chr(k & 255)
    for x, t in text.items():
        s = seg(x)
        if t.get(0) in s.first or any(ch in s.excl for ch in t.values()):
            return False
        n = facts.get(T('len', x))
        if type(n) is int and len(t) == n and Str(''.join(t[i] for i in sorted(t))) in s.ne:
            return False
    return True


# ------------------------------------------------------------------ comparison and search
def equal(a, b):
    """True, False or None (depends on what the runs are)"""
    if a is b:
        return True
    x, y = toks(a), toks(b)
    if x is None or y is None:
        return None
    while x and y and x[0] == y[0]:
        x, y = x[1:], y[1:]
    while x and y and x[-1] == y[-1]:
        x, y = x[:-1], y[:-1]
    if not x and not y:
        return True
    if not x or not y:
        return False
    for u, w in ((x, y), (y, x)):
        if isinstance(u[0], str) and isinstance(w[0], str) or isinstance(u[-1], str) and isinstance(w[-1], str):
            return False
        if isinstance(u[0], str) and u[0] in seg(w[0]).first if not isinstance(w[0], str) else False:
            return False
        if isinstance(u[-1], str) and u[-1] in seg(w[-1]).last if not isinstance(w[-1], str) else False:
            return False
        if len(u) == 1 and not isinstance(u[0], str):
            if untoks(w) in seg(u[0]).ne or any(pre(w, toks(n)) for n in seg(u[0]).npre):
                return False
        if all(isinstance(c, str) for c in u) and not matches(w, ''.join(u)):
            return False
    if a in {n for t in toks(b) if not isinstance(t, str) for n in seg(t).ne} and len(toks(b)) == 1:
        return False
    if b in {n for t in toks(a) if not isinstance(t, str) for n in seg(t).ne} and len(toks(a)) == 1:
        return False
    return None


def pre(ts, p):
    return len(ts) >= len(p) and ts[:len(p)] == p


def matches(ts, k):
    """Could the tokens denote the constant k?"""
    if not ts:
        return not k
    if isinstance(ts[0], str):
        return k[:1] == ts[0] and matches(ts[1:], k[1:])
    s = seg(ts[0])
    for n in range(1, len(k) + 1):
        if k[n - 1] in s.excl:
            break
        if n == 1 and k[0] in s.first:
            break
        if k[n - 1] in s.last:
            continue
        if (k[:n] not in {x.a[1] for x in s.ne if is_c(x, 'str')}) and matches(ts[1:], k[n:]):
            return True
    return False


YES, NO, MAY = 'yes', 'no', 'may'


def at(ts, i, p, mid=False):
    """Does p occur at token i?"""
    while p:
        if i >= len(ts):
            return NO
        t = ts[i]
        if isinstance(t, str):
            if t != p[0]:
                return NO
            i, p = i + 1, p[1:]
            continue
        s = seg(t)
        if p[0] in (s.excl if mid else s.first):
            return NO
        return MAY
    return YES


def within(ts, i, p):
    """Could p start inside the run at token i (after or at its first byte)?"""
    s = seg(ts[i])
    for k in range(1, len(p) + 1):
        if p[k - 1] in s.excl:
            return False
        if k == len(p):
            return True
        if p[k - 1] in s.last:
            continue
        if at(ts, i + 1, p[k:]) != NO:
            return True
    return False


def occurrences(ts, p, first=False, last=False):
    """Token positions of the non-overlapping occurrences of the constant p, or None if that depends on the runs."""
    out = []
    i = 0
    if not p:
        return None
    while i < len(ts):
        if isinstance(ts[i], str):
            r = at(ts, i, p)
            if r == YES:
                out.append(i)
                if first:
                    return out
                i += len(p)
                continue
            if r == MAY:
                return None
        elif within(ts, i, p):
            return None
        i += 1
    return out


def ends_at(ts, p):
    """p at the end"""
    q = p
    i = len(ts)
    while q:
        i -= 1
        if i < 0:
            return NO
        t = ts[i]
        if isinstance(t, str):
            if t != q[-1]:
                return NO
            q = q[:-1]
            continue
        return NO if q[-1] in seg(t).last else MAY
    return YES


def starts(a, b):
    """Does the segmented string a start with b? True/False/None"""
    x, y = toks(a), toks(b)
    if x is None or y is None:
        return None
    while x and y and x[0] == y[0]:
        x, y = x[1:], y[1:]
    if not y:
        return True
    if not x:
        return False
    if isinstance(x[0], str) and isinstance(y[0], str):
        return False
    if not isinstance(x[0], str):
        s = seg(x[0])
        if isinstance(y[0], str) and y[0] in s.first or untoks(y) in s.npre:
            return False
        # the run ends before the first character it excludes, and what follows it has to go on with y
        i = next((i for i, t in enumerate(y) if not isinstance(t, str) or t in s.excl), len(y))
        if i < len(y) and isinstance(y[i], str) and (len(x) == 1 or isinstance(x[1], str) and x[1] not in y[1:i + 1]):
            return False
    if not isinstance(y[0], str) and isinstance(x[0], str) and x[0] in seg(y[0]).first:
        return False
    return None


def ends(a, b):
    x, y = toks(a), toks(b)
    if x is None or y is None:
        return None
    while x and y and x[-1] == y[-1]:
        x, y = x[:-1], y[:-1]
    if not y:
        return True
    if not x:
        return False
    if isinstance(x[-1], str) and isinstance(y[-1], str):
        return False
    if not isinstance(x[-1], str) and isinstance(y[-1], str) and y[-1] in seg(x[-1]).last:
        return False
    if not isinstance(y[-1], str) and isinstance(x[-1], str) and x[-1] in seg(y[-1]).last:
        return False
    return None


def trim(v, left=True, right=True, ws=WS):
    ts = toks(v)
    if ts is None:
        return None
    ts = list(ts)
    if left:
        while ts and isinstance(ts[0], str) and ts[0] in ws:
            ts.pop(0)
        if ts and not isinstance(ts[0], str) and not set(ws) <= seg(ts[0]).first:
            return None
    if right:
        while ts and isinstance(ts[-1], str) and ts[-1] in ws:
            ts.pop()
        if ts and not isinstance(ts[-1], str) and not set(ws) <= seg(ts[-1]).last:
            return None
    return untoks(ts)


# ------------------------------------------------------------------ patterns
def pattern(I, st, c, i):
    """('s', text) or ('p', predicate over tokens: True/False/None)"""
    v = c.args[i]
    p = val(I, st, c, i)
    if is_c(p, 'str'):
        return ('s', p.a[1])
    if is_c(p, 'char'):
        return ('s', chr(p.a[1]))
    if p.op in ('arr', 'seq') and p.a and all(is_c(I.strip(st, x), 'char') for x in p.a):
        cs = {chr(I.strip(st, x).a[1]) for x in p.a}
        return ('p', lambda t: t in cs if isinstance(t, str) else (False if cs <= seg(t).excl else None))
    if is_c(p, 'int'):
        return ('s', chr(p.a[1]))
    if p.op in ('cat', 'run') and parts(p) is not None:
        return ('t', p)
    f = I.strip(st, v)
    if f.op in ('clo', 'fn'):
        return ('p', classifier(I, st, c, f))
    return None


def classifier(I, st, c, f):
    ref = 'slice' in c.path
    chars = not ref

    def cl(t):
        if isinstance(t, str):
            e = C('char', ord(t)) if chars else Int(ord(t))
        else:
            e = T('segb', t.a[0], 9)
        s = st.copy()
        s.facts = dict(s.facts)
        if e.op == 'segb':
            I.purge(s, e)
            s.facts[('ne', e)] = seg(t).codes
        rs = set()
        for s2, r in I.call_value(s, f, [e if chars else T('ref', ('P', e), ())], c):
            rs.add(I.truth(s2, r))
        return list(rs)[0] if len(rs) == 1 else None
    return cl


def cuts(ts, pat):
    """[(start, end)] token ranges of the matches, or None"""
    if pat[0] == 's':
        o = occurrences(ts, pat[1])
        return None if o is None else [(i, i + len(pat[1])) for i in o]
    if pat[0] == 't':
        p = toks(pat[1])
        n = len(p)
        out, i = [], 0
        while i < len(ts):
            if ts[i:i + n] == p:
                out.append((i, i + n))
                i += n
            else:
                w = untoks(ts[i:])
                if starts(w, pat[1]) is None:
                    return None
                if not isinstance(ts[i], str) and within(ts, i, p[0] if isinstance(p[0], str) else 'x'):
                    return None
                i += 1
        return out
    out = []
    for i, t in enumerate(ts):
        r = pat[1](t)
        if r is None or r is True and not isinstance(t, str):
            return None
        if r:
            out.append((i, i + 1))
    return out


def pieces(ts, cs):
    out, a = [], 0
    for s, e in cs:
        out.append(untoks(ts[a:s]))
        a = e
    out.append(untoks(ts[a:]))
    return out


# ------------------------------------------------------------------ models
def over(*names):
    def d(f):
        for n in names:
            o = M.get(n)

            def w(I, st, c, f=f, o=o):
                if I.segmode:
                    r = f(I, st, c)
                    if r is not NotImplemented:
                        return r
                return o(I, st, c) if o is not None else NotImplemented
            M[n] = w
        return f
    return d


S_ = 'core::str::<impl str>::'
S2 = 'std::str::<impl str>::'
L_ = 'core::slice::<impl [T]>::'


def sv(I, st, c, i=0):
    """Argument i as a segmented string, or None"""
    v = seqstr(val(I, st, c, i))
    return v if parts(v) is not None else None


@over('std::string::String::from_utf8_lossy')
def g_lossy(I, st, c):
    v = sv(I, st, c)
    return NotImplemented if v is None else [(st, untoks(toks(v)))]


@over('std::string::String::from_utf8', 'std::str::from_utf8', 'core::str::converts::from_utf8', 'core::str::from_utf8')
def g_utf8(I, st, c):
    v = sv(I, st, c)
    return NotImplemented if v is None else [(st, Ok(untoks(toks(v))))]


@over('std::vec::Vec::push', 'std::string::String::push')
def g_push(I, st, c):
    ty = tname(I, c.tys[0])
    el = I.p.types[ty.args[0]].s if ty is not None and ty.args else None
    if 'String' not in c.path and el != 'u8':
        return NotImplemented
    ad = place(I, st, c, 0)
    v = seqstr(I.read(st, ad))
    b = c.args[1]
    while b.op == 'cast':
        b = b.a[1]
    if b.op == 'segb':
        n = append(v, b)
    elif is_c(b) and b.a[0] in ('int', 'char'):
        n = cat([asstr(v), Str(chr(b.a[1]))])
    else:
        return NotImplemented
    I.write(st, ad, n)
    return [(st, UNIT)]


def asstr(v):
    p = parts(v)
    return cat(p) if p is not None else v


def append(v, b):
    v = asstr(v)
    name, ph = b.a[0], b.a[1]
    if ph == 0:
        return cat([v, T('run', name, 'o')])
    st = T('run', name, 's')
    if v is st:
        return T('run', name, 'o')
    if v.op == 'cat' and v.a[-1] is st:
        return cat(list(v.a[:-1]) + [T('run', name, 'o')])
    return cat([v, T('run', name, 'x')])


@over('std::string::String::push_str', 'std::vec::Vec::extend_from_slice', 'bytes::BytesMut::extend_from_slice', 'bytes::BufMut::put_slice',
      'std::fmt::Write::write_str')
def g_push_str(I, st, c):
    ad = place(I, st, c, 0)
    x = val(I, st, c, 1)
    v = seqstr(I.read(st, ad))
    if x.op == 'tostr' and x.a[0].op == 'segb':
        n = append(v, x.a[0])
    elif sv(I, st, c, 1) is not None:
        n = cat([asstr(v), asstr(x)])
    else:
        return NotImplemented
    I.write(st, ad, n)
    return [(st, UNIT if 'write_str' not in c.path else Ok(UNIT))]


@over('std::vec::Vec::append', 'std::iter::Extend::extend')
def g_append(I, st, c):
    ty = tname(I, c.tys[0])
    el = I.p.types[ty.args[0]].s if ty is not None and ty.args else None
    if ty is None or ty.s != 'std::string::String' and el != 'u8':
        return NotImplemented
    ad = place(I, st, c, 0)
    if c.path.endswith('append'):
        sad = place(I, st, c, 1)
        o = I.read(st, sad)
        if parts(seqstr(o)) is None:
            return NotImplemented
        I.write(st, sad, T('seq'))
    else:
        o = c.args[1]
        o = rest(I, st, o) if o.op == 'iter' else I.strip(st, o)
        if o is None or parts(seqstr(o)) is None:
            return NotImplemented
    I.write(st, ad, cat([asstr(seqstr(I.read(st, ad))), asstr(seqstr(o))]))
    return [(st, UNIT)]


@over('std::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty', 'std::string::String::is_empty',
      'bytes::Bytes::is_empty', 'bytes::BytesMut::is_empty')
def g_is_empty(I, st, c):
    v = sv(I, st, c)
    if v is None:
        v = val(I, st, c, 0)
        if v.op == 'cat' and any(isrun(x) or is_c(x, 'str') for x in v.a):
            return [(st, FALSE)]
        return NotImplemented
    return [(st, Bool(not toks(v)))]


@over(S_ + 'trim', S_ + 'trim_start', S_ + 'trim_end', 'core::slice::ascii::<impl [u8]>::trim_ascii', S_ + 'trim_left', S_ + 'trim_right')
def g_trim(I, st, c):
    v = sv(I, st, c)
    if v is None:
        return NotImplemented
    op = c.path.split('::')[-1]
    r = trim(v, op not in ('trim_end', 'trim_right'), op not in ('trim_start', 'trim_left'))
    return NotImplemented if r is None else [(st, r)]


@over(S_ + 'trim_matches', S_ + 'trim_start_matches', S_ + 'trim_end_matches')
def g_trimm(I, st, c):
    v, p = sv(I, st, c), pattern(I, st, c, 1)
    if v is None or p is None or p[0] == 't' or p[0] == 's' and len(p[1]) != 1:
        return NotImplemented
    ts = list(toks(v))
    op = c.path.split('::')[-1]
    cl = p[1] if p[0] == 'p' else (lambda t: t == p[1] if isinstance(t, str) else None)

    def end(t, left):
        if isinstance(t, str):
            return cl(t)
        if p[0] == 's':
            return False if p[1] in (seg(t).first if left else seg(t).last) else None
        return False if cl(t) is False else None
    if op != 'trim_end_matches':
        while ts and end(ts[0], True):
            ts.pop(0)
        if ts and end(ts[0], True) is None:
            return NotImplemented
    if op != 'trim_start_matches':
        while ts and end(ts[-1], False):
            ts.pop()
        if ts and end(ts[-1], False) is None:
            return NotImplemented
    return [(st, untoks(ts))]


@over(S2 + 'to_lowercase', S_ + 'to_ascii_lowercase', S2 + 'to_ascii_lowercase', 'core::slice::ascii::<impl [u8]>::to_ascii_lowercase')
def g_lower(I, st, c):
    v = sv(I, st, c)
    if v is None or not hasrun(v):
        return NotImplemented
    return [(st, lower(v))]


UP = frozenset('ABCDEFGHIJKLMNOPQRSTUVWXYZ')


def lower(v):
    return cat([Str(x.a[1].lower()) if is_c(x) else (x if UP <= seg(x).excl else lowrun(x) if x.a[1] == 'w' else T('lower', x)) for x in parts(v)])


@over(S_ + 'eq_ignore_ascii_case', 'core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case')
def g_eqi(I, st, c):
    a, b = sv(I, st, c), sv(I, st, c, 1)
    if a is None or b is None:
        return NotImplemented
    a, b = lower(a), lower(b)
    r = equal(a, b) if parts(a) is not None and parts(b) is not None else (True if a is b else None)
    return [(st, Bool(r) if r is not None else I.binop(st, 'Eq', a, b))]


def seq_iter(ps):
    return T('iter', 'val', T('seq', *ps), Int(0))


@over(*[p + n for n in ('split', 'splitn', 'rsplit', 'rsplitn', 'split_terminator', 'lines', 'split_whitespace', 'split_ascii_whitespace', 'split_inclusive')
        for p in (S_, L_)])
def g_split(I, st, c):
    v = sv(I, st, c)
    if v is None:
        return NotImplemented
    op = c.path.split('::')[-1]
    ts = toks(v)
    if op in ('split_whitespace', 'split_ascii_whitespace'):
        cs = cuts(ts, ('p', lambda t: t in WS if isinstance(t, str) else (False if set(WS) <= seg(t).excl else None)))
        return NotImplemented if cs is None else [(st, seq_iter([x for x in pieces(ts, cs) if toks(x)]))]
    if op == 'lines':
        cs = cuts(ts, ('s', '\n'))
        if cs is None:
            return NotImplemented
        ps = pieces(ts, cs)
        if not toks(ps[-1]):
            ps.pop()
        out = []
        for x in ps:
            t = toks(x)
            if ends_at(t, '\r') == MAY:
                return NotImplemented
            out.append(untoks(t[:-1]) if ends_at(t, '\r') == YES else x)
        return [(st, seq_iter(out))]
    pi = 2 if op in ('splitn', 'rsplitn') else 1
    p = pattern(I, st, c, pi)
    if p is None:
        return NotImplemented
    cs = cuts(ts, p)
    if cs is None and op == 'splitn' and is_c(c.args[1], 'int'):
        cs = first_cuts(ts, p, c.args[1].a[1] - 1)
    if cs is None:
        return NotImplemented
    if op in ('splitn', 'rsplitn'):
        n = c.args[1]
        if not is_c(n, 'int') or n.a[1] < 1:
            return NotImplemented
        k = n.a[1] - 1
        cs = cs[:k] if op == 'splitn' else (cs[-k:] if k else [])
    if op == 'split_inclusive':
        out, a = [], 0
        for s, e in cs:
            out.append(untoks(ts[a:e]))
            a = e
        if a < len(ts):
            out.append(untoks(ts[a:]))
        return [(st, seq_iter(out))]
    ps = pieces(ts, cs)
    if op == 'split_terminator' and not toks(ps[-1]):
        ps.pop()
    return [(st, seq_iter(ps[::-1] if op.startswith('rsplit') else ps))]


@over(S_ + 'split_once', S_ + 'rsplit_once')
def g_once(I, st, c):
    v, p = sv(I, st, c), pattern(I, st, c, 1)
    if v is None or p is None:
        return NotImplemented
    ts = toks(v)
    cs = first_cut(ts, p, c.path.endswith('rsplit_once'))
    if cs is None:
        return NotImplemented
    if not cs:
        return [(st, NONE)]
    s, e = cs[0]
    return [(st, Some(T('tup', untoks(ts[:s]), untoks(ts[e:]))))]


def first_cuts(ts, p, n):
    """The first n matches at most; what lies behind them need not be decidable."""
    out, a = [], 0
    while len(out) < n:
        cs = first_cut(ts[a:], p)
        if cs is None:
            return None
        if not cs:
            break
        s, e = cs[0]
        out.append((a + s, a + e))
        a += e
    return out


def first_cut(ts, p, last=False):
    """First (last) match; what lies behind (before) it need not be decidable."""
    if last:
        cs = cuts(ts, p)
        return None if cs is None else cs[-1:]
    if p[0] == 's':
        i = 0
        while i < len(ts):
            if isinstance(ts[i], str):
                r = at(ts, i, p[1])
                if r == YES:
                    return [(i, i + len(p[1]))]
                if r == MAY:
                    return None
            elif within(ts, i, p[1]):
                return None
            i += 1
        return []
    if p[0] == 'p':
        for i, t in enumerate(ts):
            r = p[1](t)
            if r is None or r is True and not isinstance(t, str):
                return None
            if r:
                return [(i, i + 1)]
        return []
    cs = cuts(ts, p)
    return None if cs is None else cs[:1]


def occurs(ts, p):
    """Does the pattern occur anywhere (None: cannot tell)"""
    if ts is None:
        return None
    if p[0] == 's' and any(isinstance(t, str) and at(ts, i, p[1]) == YES for i, t in enumerate(ts)):
        return True
    cs = first_cut(ts, p)
    return None if cs is None else bool(cs)


@over(S_ + 'find', S_ + 'rfind')
def g_find(I, st, c):
    v, p = sv(I, st, c), pattern(I, st, c, 1)
    if v is None or p is None:
        return NotImplemented
    ts = toks(v)
    cs = first_cut(ts, p, c.path.endswith('rfind'))
    if cs is None:
        return NotImplemented
    return [(st, Some(length(untoks(ts[:cs[0][0]]))) if cs else NONE)]


@over(S_ + 'contains')
def g_contains(I, st, c):
    v, p = sv(I, st, c), pattern(I, st, c, 1)
    if v is None or p is None:
        return NotImplemented
    has = occurs(toks(v), p)
    return NotImplemented if has is None else [(st, Bool(has))]


@over(L_ + 'contains')
def g_lcontains(I, st, c):
    v = sv(I, st, c)
    b = val(I, st, c, 1)
    if v is None or not is_c(b, 'int') or not hasrun(v):
        return NotImplemented
    cs = first_cut(toks(v), ('s', chr(b.a[1])))
    return NotImplemented if cs is None else [(st, Bool(bool(cs)))]


@over(S_ + 'starts_with', L_ + 'starts_with', S_ + 'ends_with', L_ + 'ends_with')
def g_starts(I, st, c):
    v, p = sv(I, st, c), pattern(I, st, c, 1)
    if v is None or p is None:
        return NotImplemented
    st_ = c.path.endswith('starts_with')
    if p[0] == 'p':
        ts = toks(v)
        if not ts:
            return [(st, FALSE)]
        r = p[1](ts[0 if st_ else -1])
    else:
        b = Str(p[1]) if p[0] == 's' else p[1]
        r = starts(v, b) if st_ else ends(v, b)
    if r is None:
        return [(st, T('starts' if st_ else 'ends', v, val(I, st, c, 1)))]
    return [(st, Bool(r))]


@over(S_ + 'strip_prefix', L_ + 'strip_prefix', S_ + 'strip_suffix', L_ + 'strip_suffix')
def g_strip(I, st, c):
    v, p = sv(I, st, c), pattern(I, st, c, 1)
    if v is None or p is None or p[0] == 'p':
        return NotImplemented
    b = Str(p[1]) if p[0] == 's' else p[1]
    pf = c.path.endswith('prefix')
    r = starts(v, b) if pf else ends(v, b)
    if r is None:
        return NotImplemented
    if not r:
        return [(st, NONE)]
    ts, n = toks(v), len(toks(b))
    return [(st, Some(untoks(ts[n:] if pf else ts[:len(ts) - n])))]


@over(S_ + 'replace', S2 + 'replace')
def g_replace(I, st, c):
    v, p, q = sv(I, st, c), pattern(I, st, c, 1), sv(I, st, c, 2)
    if v is None or p is None or q is None:
        return NotImplemented
    ts = toks(v)
    cs = cuts(ts, p)
    if cs is None:
        return NotImplemented
    ps = pieces(ts, cs)
    out = [ps[0]]
    for x in ps[1:]:
        out += [q, x]
    return [(st, cat(out))]


@over('std::vec::Vec::pop', 'std::string::String::pop')
def g_pop(I, st, c):
    ad = place(I, st, c, 0)
    v = I.read(st, ad)
    ty = tname(I, c.tys[0])
    ischar = ty is not None and ty.s == 'std::string::String'
    if v.op == 'seq' and v.a and not all(is_c(x, 'int') for x in v.a):
        return NotImplemented
    ts = toks(seqstr(v))
    if ts is None or ts and not isinstance(ts[-1], str):
        return NotImplemented
    if not ts:
        return [(st, NONE)]
    I.write(st, ad, untoks(ts[:-1]))
    return [(st, Some(C('char', ord(ts[-1])) if ischar else Int(ord(ts[-1]))))]


def boundary(ts, n):
    """Token index at byte position n (a linear term), or None"""
    acc = Int(0)
    for i in range(len(ts) + 1):
        if acc is n:
            return i
        if i < len(ts):
            t = ts[i]
            if isinstance(t, str):
                d, k = lin(acc)
                acc = unlin(d, k + len(t.encode()))
            else:
                d, k = lin(acc)
                d = dict(d)
                d[T('len', t)] = d.get(T('len', t), 0) + 1
                acc = unlin(d, k)
    return None


def substr(v, lo, hi):
    ts = toks(v)
    if ts is None:
        return None
    a, b = boundary(ts, lo), boundary(ts, hi)
    if a is None or b is None or a > b:
        return None
    return untoks(ts[a:b])


_substr = models.substr


def sub(I, st, v, lo, hi, n):
    if I.segmode:
        x = seqstr(v)
        if parts(x) is not None and not (v.op == 'seq' and v.a):
            r = substr(x, lo, hi)
            if r is not None:
                return r
    return _substr(I, st, v, lo, hi, n)


models.substr = sub


@over(S_ + 'get', L_ + 'get')
def g_get(I, st, c):
    v = sv(I, st, c)
    if v is None:
        return NotImplemented
    if c.tys[1] is not None and c.tys[1].k == 'prim':
        ts = toks(v)
        i = boundary(ts, c.args[1])
        if i is None:
            return NotImplemented
        if i >= len(ts):
            return [(st, NONE)]
        if not isinstance(ts[i], str):
            return NotImplemented
        return [(st, Some(T('ref', ('P', Int(ord(ts[i]))), ())))]
    r = I.strip(st, c.args[1])
    n = length(v)
    lo, hi = Int(0), n
    if r.op != 'agg':
        return NotImplemented
    nm = r.a[0].split('::')[-1]
    if nm in ('Range', 'RangeFrom'):
        lo = project(r, 'start')
    if nm in ('Range', 'RangeTo'):
        hi = project(r, 'end')
    x = substr(v, lo, hi)
    if x is not None:
        return [(st, Some(x))]
    if I.truth(st, I.binop(st, 'Lt', n, hi)) is True or I.truth(st, I.binop(st, 'Lt', hi, lo)) is True or I.truth(st, I.binop(st, 'Lt', n, lo)) is True:
        return [(st, NONE)]
    return NotImplemented


@over(L_ + 'first', L_ + 'last')
def g_first(I, st, c):
    v = sv(I, st, c)
    if v is None:
        return NotImplemented
    ts = toks(v)
    if not ts:
        return [(st, NONE)]
    fst = c.path.endswith('first')
    t = ts[0 if fst else -1]
    if not isinstance(t, str):
        if t.op != 'run':
            return NotImplemented
        e = T('segb', t.a[0], 'first' if fst else 'last')
        st = st.copy()
        st.facts[('ne', e)] = frozenset(ord(x) for x in (seg(t).first if fst else seg(t).last))
        return [(st, Some(T('ref', ('P', e), ())))]
    return [(st, Some(T('ref', ('P', Int(ord(t))), ())))]


@over('std::ops::IndexMut::index_mut')
def g_index_mut(I, st, c):
    r = I.strip(st, c.args[1])
    if r.op != 'agg':
        return NotImplemented
    nm = r.a[0].split('::')[-1]
    if nm == 'RangeTo' or nm == 'Range' and project(r, 'start') is Int(0):
        ad = place(I, st, c, 0)
        return [(st, T('ref', ad[0], ad[1] + (('pre', project(r, 'end')),)))]
    return NotImplemented


@over('std::cmp::Ord::min', 'std::cmp::min', 'std::cmp::Ord::max', 'std::cmp::max')
def g_min(I, st, c):
    a, b = val(I, st, c, 0), val(I, st, c, 1)
    if is_c(a, 'int') and is_c(b, 'int') or haslen(a) or haslen(b):
        k = I.truth(st, I.binop(st, 'Lt', b, a))
        if k is None:
            return NotImplemented
        mn = c.path.endswith('min')
        return [(st, (b if k else a) if mn else (a if k else b))]
    return NotImplemented


@over('std::string::String::truncate')
def g_trunc(I, st, c):
    ad = place(I, st, c, 0)
    r = substr(I.read(st, ad), Int(0), c.args[1]) if parts(I.read(st, ad)) is not None else None
    if r is None:
        return NotImplemented
    I.write(st, ad, r)
    return [(st, UNIT)]


@over('std::slice::<impl [T]>::join', 'std::slice::<impl [T]>::concat')
def g_join(I, st, c):
    l = unlist(val(I, st, c, 0))
    if l is None:
        return NotImplemented
    l = [I.strip(st, x) for x in l]
    sep = val(I, st, c, 1) if len(c.args) > 1 else Str('')
    out = []
    for i, x in enumerate(l):
        out += ([sep] if i else []) + [x]
    return [(st, cat(out))]


# ------------------------------------------------------------------ iteration
@over(S_ + 'chars', S_ + 'bytes', S_ + 'char_indices')
def g_chars(I, st, c):
    v = sv(I, st, c)
    if v is None:
        return NotImplemented
    k = {'chars': 'char', 'bytes': 'byte', 'char_indices': 'idx'}[c.path.split('::')[-1]]
    return [(st, T('iter', 'seg', v, T('sp', 0, 0, 0), k))]


def as_seg(I, st, it):
    """A plain iterator over bytes of a segmented string, as a segmented iterator"""
    if it.op == 'iter' and len(it.a) == 4 and it.a[0] == 'seg':
        return it
    if it.op == 'iter' and len(it.a) == 3 and it.a[0] in ('ref', 'refv', 'val') and is_c(it.a[2], 'int') and it.a[2].a[1] == 0:
        v = I.strip(st, it.a[1]) if it.a[0] == 'ref' else it.a[1]
        if v is T('seq'):
            return T('iter', 'seg', Str(''), T('sp', 0, 0, 0), 'byte' if it.a[0] == 'val' else 'ref')
        if v.op in ('run', 'cat') or is_c(v, 'str'):
            v = asstr(v)
            if parts(v) is not None and v.op != 'seq':
                return T('iter', 'seg', v, T('sp', 0, 0, 0), 'byte' if it.a[0] == 'val' else 'ref')
    if it.op == 'iter' and len(it.a) == 3 and it.a[0] == 'cloned':
        s = as_seg(I, st, it.a[1])
        if s is not None and s.a[3] == 'ref':
            return T('iter', 'seg', s.a[1], s.a[2], 'byte')
    return None


def subst(st, m):
    """Replace terms in the whole state; facts about them are forgotten."""
    keys = tuple(m)

    def sb(t, memo):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is not None:
            return r
        if not any(k in termset(t) for k in keys):
            memo[t] = t
            return t
        if t.op == 'cat':
            r = cat([sb(x, memo) for x in t.a])
        elif t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
            a, b = sb(t.a[1], memo), sb(t.a[2], memo)
            x, y = lin(a), lin(b)
            s = 1 if t.a[0] == 'Add' else -1
            d = dict(x[0])
            for k, n in y[0].items():
                d[k] = d.get(k, 0) + s * n
                if not d[k]:
                    del d[k]
            r = unlin_raw(d, x[1] + s * y[1])
        else:
            r = T(t.op, *[sx(x, memo) for x in t.a])
        memo[t] = r
        return r

    def sx(x, memo):
        if isinstance(x, T):
            return sb(x, memo)
        if isinstance(x, tuple):
            return tuple(sx(y, memo) for y in x)
        return x
    memo = {}
    for k, v in list(st.store.items()):
        st.store[k] = sb(v, memo)
    if st.trace.op == 'tr':
        items, t = [], st.trace
        while t.op == 'tr':
            items.append(t.a[1])
            t = t.a[0]
        if any(k in termset(x) for x in items for k in keys):
            for x in reversed(items):
                t = T('tr', t, sb(x, memo))
            st.trace = t
    for f in list(st.facts):
        if any(k in (termset(f) if isinstance(f, T) else termset(f[1])) for k in keys):
            del st.facts[f]


def unlin_raw(d, c):
    r = None
    for k in sorted(d, key=lambda x: x.i):
        for _ in range(abs(d[k])):
            if r is None:
                r = k if d[k] > 0 else T('bin', 'Sub', Int(0), k)
            else:
                r = T('bin', 'Add' if d[k] > 0 else 'Sub', r, k)
    if r is None:
        return Int(c)
    return r if c == 0 else T('bin', 'Add', r, Int(c))


_ts = {}


def termset(t):
    r = _ts.get(t)
    if r is None:
        r = _ts[t] = frozenset(x for x in subterms(t) if x.op in ('run', 'iter', 'segb', 'sp'))
    return r


def norm(ps, pos):
    i, j, ph = pos.a
    while i < len(ps) and is_c(ps[i]) and j >= len(ps[i].a[1]):
        i, j = i + 1, 0
    return i, j, ph


def seg_next(I, st, it):
    """[(state, element or None, iterator')]"""
    _, v, pos, kind = it.a
    ps = parts(v)
    i, j, ph = norm(ps, pos)
    if i >= len(ps):
        return [(st, None, it)]
    x = ps[i]

    def elem(s, b, off):
        if kind == 'ref':
            return T('ref', ('P', b), ())
        if kind == 'idx':
            return T('tup', off, b)
        return b
    if is_c(x):
        ch = x.a[1][j]
        b = C('char', ord(ch)) if kind in ('char', 'idx') else Int(ord(ch))
        off = length(cat(ps[:i] + [Str(x.a[1][:j])])) if kind == 'idx' else None
        return [(st, elem(st, b, off), T('iter', 'seg', v, T('sp', i, j + 1, 0), kind))]
    name = x.a[0]
    if ph == 0:
        b = T('segb', name, 0)
        I.purge(st, b)
        I.purge(st, T('segb', name, 1))
        st.facts[('ne', b)] = seg(x).fcodes
        off = length(cat(ps[:i])) if kind == 'idx' else None
        return [(st, elem(st, b, off), T('iter', 'seg', v, T('sp', i, 0, 1), kind))]
    o, s_, w, z = (T('run', name, k) for k in 'oswz')
    more = st.copy()
    I.purge(more, T('segb', name, 0))
    b = T('segb', name, 1)
    I.purge(more, b)
    subst(more, {o: s_})
    more.facts[('ne', b)] = seg(x).codes
    off = I.binop(more, 'Add', length(cat(ps[:i])), T('len', s_)) if kind == 'idx' else None
    nit = T('iter', 'seg', v, T('sp', i, 0, 1), kind)
    out = [(more, elem(more, b, off), nit)]
    I.purge(st, T('segb', name, 0))
    I.purge(st, b)
    subst(st, {o: w, s_: z})
    return out + seg_next(I, st, T('iter', 'seg', v, T('sp', i + 1, 0, 0), kind))


def rest(I, st, it):
    """What a segmented iterator has left, as a string"""
    s = as_seg(I, st, it)
    if s is None:
        return None
    ps = parts(s.a[1])
    i, j, ph = norm(ps, s.a[2])
    if i >= len(ps):
        return Str('')
    if is_c(ps[i]):
        return cat([Str(ps[i].a[1][j:])] + ps[i + 1:])
    if ph == 0:
        return cat(ps[i:])
    # right behind a byte of a run: only known if the run is over
    return cat([T('run', ps[i].a[0], 'r')] + ps[i + 1:])


_iter_next = models.iter_next
ENDED = T('iter', 'val', T('seq'), Int(0))
STEPPED = ('take_while', 'skip_while', 'map_while', 'inspect', 'skip', 'take', 'step_by', 'flat_map', 'flatten', 'flat', 'peek', 'scan')


def stepped(I, st, it, c, tag):
    """The next element of an adapted iterator, or None if that cannot be told"""
    k, src, x = it.a[:3]
    again = lambda n, *a: T('iter', k, n, *(a or it.a[2:]))
    out = []
    if k == 'inspect':
        for s, e, n in iter_next(I, st, src, c, (tag, 'i')):
            if e is None:
                out.append((s, None, again(n)))
                continue
            b = ('G', c.site, tag)
            s.store[b] = e
            for s2, _ in I.call_value(s, x, [T('ref', b, ())], c):
                s2.store.pop(b, None)
                out.append((s2, e, again(n)))
        return out
    if k in ('take_while', 'skip_while'):
        todo = [(st, src)]
        for _ in range(40):
            nxt = []
            for s0, i in todo:
                for s, e, n in iter_next(I, s0, i, c, (tag, 'w')):
                    if e is None:
                        out.append((s, None, ENDED))
                        continue
                    b = ('G', c.site, tag)
                    s.store[b] = e
                    for s2, r in I.call_value(s, x, [T('ref', b, ())], c):
                        s2.store.pop(b, None)
                        for s3, hold in I.fork_bool(s2, r):
                            if k == 'take_while':
                                out.append((s3, e, again(n)) if hold else (s3, None, ENDED))
                            elif hold:
                                nxt.append((s3, n))
                            else:
                                out.append((s3, e, n))
            todo = nxt
            if not todo:
                return out
        return None
    if k in ('map_while', 'scan'):
        for s, e, n in iter_next(I, st, src, c, (tag, 'w')):
            if e is None:
                out.append((s, None, ENDED))
                continue
            b = ('G', c.site, tag)
            if k == 'scan':
                s.store[b] = it.a[3]
            for s2, r in I.call_value(s, x, [e] if k == 'map_while' else [T('ref', b, ()), e], c):
                nx = again(n) if k == 'map_while' else again(n, x, s2.store.pop(b))
                for s3, v in I.fork_variant(s2, r, OPT):
                    out.append((s3, I.payload(r, v), nx) if v == 'Some' else (s3, None, ENDED))
        return out
    if k == 'take':
        if not is_c(x, 'int'):
            if I.segmode:
                return None
            return [(st.copy(), None, ENDED)] + [(s, e, again(n)) for s, e, n in iter_next(I, st, src, c, (tag, 't'))]
        if x.a[1] == 0:
            return [(st, None, ENDED)]
        return [(s, e, again(n, Int(x.a[1] - 1))) for s, e, n in iter_next(I, st, src, c, (tag, 't'))]
    if k in ('skip', 'step_by'):
        if not is_c(x, 'int') or x.a[1] > 40:
            return None
        first = it.a[3] if len(it.a) > 3 else TRUE
        todo = [(st, src)]
        for _ in range(x.a[1] if k == 'skip' else 0 if first is TRUE else x.a[1] - 1):
            nxt = []
            for s0, i in todo:
                for s, e, n in iter_next(I, s0, i, c, (tag, 's')):
                    if e is None:
                        out.append((s, None, ENDED))
                    else:
                        nxt.append((s, n))
            todo = nxt
        for s0, i in todo:
            for s, e, n in iter_next(I, s0, i, c, (tag, 's')):
                out.append((s, e, n if k == 'skip' else again(n, x, FALSE)))
        return out
    if k in ('flat_map', 'flatten', 'flat'):
        todo = [(st, src, it.a[3] if k == 'flat' else ENDED)]
        f = x if k in ('flat_map', 'flat') else UNIT
        for _ in range(60):
            nxt = []
            for s0, o, cur in todo:
                for s, e, n in iter_next(I, s0, cur, c, (tag, 'l')):
                    if e is not None:
                        out.append((s, e, T('iter', 'flat', o, f, n)))
                        continue
                    for s2, e2, o2 in iter_next(I, s, o, c, (tag, 'o')):
                        if e2 is None:
                            out.append((s2, None, ENDED))
                            continue
                        for s3, r in (I.call_value(s2, f, [e2], c) if f is not UNIT else [(s2, e2)]):
                            for s4, i in inner(I, s3, r):
                                if i is None:
                                    return None
                                nxt.append((s4, o2, i))
            todo = nxt
            if not todo:
                return out
        return None
    if k == 'peek':
        if x is UNIT:
            return [(s, e, again(n)) for s, e, n in iter_next(I, st, src, c, (tag, 'p'))]
        return [(st, x.a[0] if x.a else None, T('iter', 'peek', src, UNIT))]
    return None


def inner(I, st, v):
    """A value as the iterator that into_iter makes of it: [(state, iterator or None)]"""
    x = I.strip(st, v) if v.op == 'ref' else v
    if x.op == 'agg' and x.a[0] in (OPT, 'std::result::Result') or st.facts.get(T('discr', x)) in ('Some', 'None'):
        k = I.variant_of(st, x)
        return [(st, T('iter', 'val', T('seq', I.payload(x, k)) if k in ('Some', 'Ok') else T('seq'), Int(0)))]
    if x.op == 'iter':
        return [(st, x)]
    if unlist(x) is not None:
        return [(st, T('iter', 'refv' if v.op == 'ref' else 'val', x, Int(0)))]
    return [(st, None)]


@over('std::iter::Iterator::flatten')
def g_flatten(I, st, c):
    return [(st, T('iter', 'flatten', c.args[0], Int(0)))]


@over('std::iter::Iterator::scan')
def g_scan(I, st, c):
    return [(st, T('iter', 'scan', c.args[0], c.args[2], c.args[1]))]


@over('std::iter::Iterator::peekable')
def g_peekable(I, st, c):
    return [(st, T('iter', 'peek', c.args[0], UNIT))]


@over('std::iter::Peekable::peek', 'std::iter::Peekable::next_if', 'std::iter::Peekable::next_if_eq')
def g_peek(I, st, c):
    ad = place(I, st, c, 0)
    it = I.read(st, ad)
    if it.op != 'iter' or it.a[0] != 'peek':
        return NotImplemented
    op = c.path.split('::')[-1]
    out = []
    for s, e, n in (iter_next(I, st, it.a[1], c) if it.a[2] is UNIT else [(st, it.a[2].a[0] if it.a[2].a else None, it.a[1])]):
        held = T('iter', 'peek', n, T('tup', e) if e is not None else T('tup'))
        gone = T('iter', 'peek', n, UNIT)
        if e is None:
            I.write(s, ad, held)
            out.append((s, NONE))
            continue
        if op == 'peek':
            I.write(s, ad, held)
            out.append((s, Some(T('ref', ('P', e), ()))))
            continue
        rs = I.call_value(s, c.args[1], [T('ref', ('P', e), ())], c) if op == 'next_if' else [(s, I.binop(s, 'Eq', I.strip(s, e), val(I, s, c, 1)))]
        for s2, r in rs:
            for s3, k in I.fork_bool(s2, r):
                I.write(s3, ad, gone if k else held)
                out.append((s3, Some(e) if k else NONE))
    return out


def perms(l):
    if len(l) <= 1:
        return [l]
    return [[x] + r for i, x in enumerate(l) for r in perms(l[:i] + l[i + 1:])]


def iter_next(I, st, it, c, tag=0):
    if I.segmode:
        if it.op == 'iter' and it.a[0] == 'chain':
            _, a, b = it.a
            out = []
            for s, e, n in iter_next(I, st, a, c, (tag, 'h')):
                if e is None:
                    for s2, e2, n2 in iter_next(I, s, b, c, (tag, 't')):
                        out.append((s2, e2, n2))
                else:
                    out.append((s, e, T('iter', 'chain', n, b)))
            return out
        if it.op == 'iter' and it.a[0] == 'once1':
            return [(st, it.a[1], ENDED)]
        if it.op == 'iter' and it.a[0] in STEPPED:
            r = stepped(I, st, it, c, tag)
            if r is not None:
                return r
        s = as_seg(I, st, it)
        if s is not None:
            return seg_next(I, st, s)
        if it.op == 'iter' and len(it.a) == 3 and it.a[0] in ('mapref', 'mapval') and it.a[2] is Int(0):
            m = I.strip(st, it.a[1]) if it.a[0] == 'mapref' else it.a[1]
            es = entries(I, st, m)
            if es is not None:
                out = []
                for p in perms(es):
                    ref = it.a[0] == 'mapref'
                    l = [T('tup', T('ref', ('P', k), ()), T('ref', ('P', v), ())) if ref else T('tup', k, v) for k, v in p]
                    out.extend(_iter_next(I, st.copy(), T('iter', 'val', T('seq', *l), Int(0)), c, tag))
                return out
    elif it.op == 'iter' and it.a[0] in ('take_while', 'map_while', 'inspect', 'skip', 'take'):
        r = stepped(I, st, it, c, tag)
        if r is not None:
            return r
    return _iter_next(I, st, it, c, tag)


models.iter_next = iter_next


def entries(I, st, m, most=4):
    """Distinct entries of a map built from nothing, or None"""
    out = []
    gone = []
    n = 0
    while m.op in ('insert', 'remove') and n < 16:
        k = m.a[1]
        dup = False
        for k2 in [e[0] for e in out] + gone:
            r = I.truth(st, I.binop(st, 'Eq', k, k2))
            if r is None:
                return None
            dup = dup or r
        if not dup:
            out.append((k, m.a[2])) if m.op == 'insert' else gone.append(k)
        m = m.a[0]
        n += 1
    if m.op != 'map0' or len(out) > most:
        return None
    return out[::-1]


@over('std::collections::HashMap::keys', 'std::collections::HashMap::values', 'std::collections::HashMap::into_keys', 'std::collections::HashMap::into_values')
def g_keys(I, st, c):
    m = val(I, st, c, 0)
    es = entries(I, st, m)
    if es is None:
        return NotImplemented
    i = 0 if 'keys' in c.path else 1
    return [(st.copy(), seq_iter([T('ref', ('P', e[i]), ()) for e in p])) for p in perms(es)]


@over('std::collections::HashMap::len', 'std::collections::HashMap::is_empty')
def g_maplen(I, st, c):
    es = entries(I, st, val(I, st, c, 0), 12)
    if es is None:
        return NotImplemented
    return [(st, Bool(not es) if c.path.endswith('is_empty') else Int(len(es)))]


@over('std::collections::HashMap::insert', 'std::collections::HashMap::get', 'std::collections::HashMap::get_mut', 'std::collections::HashMap::contains_key',
      'std::collections::HashMap::remove')
def g_mapkey(I, st, c):
    """Case split on which earlier key of a known map equals the given one."""
    m = val(I, st, c, 0)
    k = val(I, st, c, 1)
    todo = None
    n = 0
    while m.op in ('insert', 'remove') and n < 12:
        e = I.binop(st, 'Eq', m.a[1], k)
        if I.truth(st, e) is None:
            todo = e
            break
        m = m.a[0]
        n += 1
    if todo is None:
        return NotImplemented
    out = []
    for s, _ in I.fork_bool(st, todo):
        out.extend(M[c.path](I, s, c))
    return out


@over('std::slice::Iter::as_slice', 'std::vec::IntoIter::as_slice', 'std::str::Chars::as_str')
def g_as_slice(I, st, c):
    r = rest(I, st, I.strip(st, c.args[0]))
    return NotImplemented if r is None else [(st, r)]


@over('std::convert::AsRef::as_ref')
def g_as_ref(I, st, c):
    ty = tname(I, c.tys[0])
    if ty is None or not (ty.adt or '').endswith('Iter'):
        return NotImplemented
    r = rest(I, st, I.strip(st, c.args[0]))
    return NotImplemented if r is None else [(st, r)]


@over('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def g_collect(I, st, c):
    it = c.args[0]
    r = rest(I, st, it)
    if r is not None and (c.dty.s in ('std::string::String',) or c.dty.adt == 'std::vec::Vec' and I.p.types[c.dty.args[0]].s == 'u8'):
        return [(st, r)]
    if it.op == 'iter' and it.a[0] == 'val' and is_c(it.a[2], 'int') and it.a[1].op == 'seq':
        l = it.a[1].a[it.a[2].a[1]:]
        if c.dty.s == 'std::string::String':
            return [(st, cat([I.strip(st, x) for x in l]))]
        return [(st, T('seq', *l))]
    if it.op == 'iter' and it.a[0] in ('map', 'filter', 'filter_map', 'enum', 'zip', 'cloned', 'mapref', 'mapval') and (
            c.dty.adt == 'std::vec::Vec' or c.dty.s == 'std::string::String'):
        acc = ('F', c.site)
        text = c.dty.s == 'std::string::String'
        st = st.copy()
        st.store[acc] = Str('') if text else T('seq')

        def step(s, e):
            old = s.store[acc]
            if text:
                ps = parts(seqstr(I.strip(s, e)))
                if ps is None:
                    raise Opaque()
                s.store[acc] = cat(parts(old) + ps)
            else:
                s.store[acc] = T('seq', *old.a, e)
            return [(s, None)]
        try:
            res = drive(I, st, c, step, lambda s: s.store[acc], it)
        except Opaque:
            return NotImplemented
        if res is None:
            return NotImplemented
        for s, _ in res:
            s.store.pop(acc, None)
        return res
    return NotImplemented


class Opaque(Exception):
    pass


@over('std::iter::Iterator::chain')
def g_chain(I, st, c):
    a, b = c.args
    s = as_seg(I, st, a)
    if s is None:
        return NotImplemented
    b = I.strip(st, b)
    r = None
    if b.op == 'iter' and b.a[0] == 'once1' and is_c(I.strip(st, b.a[1])):
        x = I.strip(st, b.a[1])
        r = Str(chr(x.a[1]))
    elif b.op == 'iter':
        r = rest(I, st, b)
    elif parts(seqstr(b)) is not None:
        r = seqstr(b)
    if r is None:
        return [(st, T('iter', 'chain', a, b))]
    return [(st, T('iter', 'seg', cat(parts(s.a[1]) + parts(r)), s.a[2], s.a[3]))]


@over('std::iter::once')
def g_once_iter(I, st, c):
    return [(st, T('iter', 'once1', c.args[0]))]


@over('std::iter::Iterator::by_ref')
def g_byref(I, st, c):
    return [(st, c.args[0])]


@over('std::iter::Iterator::skip', 'std::iter::Iterator::take', 'std::iter::Iterator::rev', 'std::iter::DoubleEndedIterator::rev')
def g_skip(I, st, c):
    it = c.args[0]
    op = c.path.split('::')[-1]
    if it.op == 'iter' and it.a[0] == 'val' and is_c(it.a[2], 'int') and it.a[1].op == 'seq':
        l = list(it.a[1].a[it.a[2].a[1]:])
        if op == 'rev':
            return [(st, seq_iter(l[::-1]))]
        if is_c(c.args[1], 'int'):
            n = c.args[1].a[1]
            return [(st, seq_iter(l[n:] if op == 'skip' else l[:n]))]
        return NotImplemented
    if op == 'rev':
        return NotImplemented
    r = rest(I, st, it)
    if r is None:
        return NotImplemented
    s = as_seg(I, st, it)
    ts = toks(r)
    b = boundary(ts, c.args[1])
    if b is None:
        return NotImplemented
    return [(st, T('iter', 'seg', untoks(ts[b:] if op == 'skip' else ts[:b]), T('sp', 0, 0, 0), s.a[3]))]


@over('std::iter::Iterator::position', 'std::iter::Iterator::any', 'std::iter::Iterator::all', 'std::iter::Iterator::find', 'std::iter::Iterator::rposition',
      'std::iter::Iterator::count')
def g_search(I, st, c):
    v = c.args[0]
    isref = v.op == 'ref'
    ad = place(I, st, c, 0) if isref else None
    it = I.read(st, ad) if isref else v
    op = c.path.split('::')[-1]
    if it.op == 'iter' and it.a[0] == 'windows' and op == 'any':
        w = T('win', it.a[1])
        res = []
        for s, r in I.call_value(st, c.args[-1], [T('ref', ('P', w), ())], c):
            k = None
            if r.op == 'bin' and r.a[0] == 'Eq':
                k = r.a[1] if r.a[2] is w else r.a[2] if r.a[1] is w else None
            if k is None or not is_c(k, 'str') or len(k.a[1]) != it.a[2]:
                return NotImplemented
            has = occurs(toks(it.a[1]), ('s', k.a[1]))
            res.append((s, T('contains', it.a[1], k) if has is None else Bool(has)))
        return res
    if it.op == 'iter' and len(it.a) == 3 and it.a[0] in ('mapref', 'mapval') and it.a[2] is Int(0) and op in ('find', 'any', 'all'):
        return map_search(I, st, c, it, op)
    s = as_seg(I, st, it)
    if s is None:
        return NotImplemented
    r = rest(I, st, s)
    ts = toks(r)
    if op == 'count':
        return [(st, length(r))]
    cl = byte_classifier(I, st, c, s.a[3], op == 'find')
    for i, t in enumerate(ts):
        k = cl(t)
        if op == 'all':
            k = None if k is None else not k
        if k is None or k is True and not isinstance(t, str):
            return NotImplemented
        if k:
            if isref:
                I.write(st, ad, T('iter', 'seg', untoks(ts[i + 1:]), T('sp', 0, 0, 0), s.a[3]))
            if op == 'position':
                return [(st, Some(length(untoks(ts[:i]))))]
            if op == 'rposition':
                return NotImplemented
            if op == 'find':
                b = C('char', ord(t)) if s.a[3] == 'char' else Int(ord(t))
                return [(st, Some(T('ref', ('P', b), ()) if s.a[3] == 'ref' else b))]
            return [(st, Bool(op == 'any'))]
    if isref:
        I.write(st, ad, T('iter', 'seg', Str(''), T('sp', 0, 0, 0), s.a[3]))
    return [(st, NONE if op in ('position', 'find', 'rposition') else Bool(op == 'all'))]


def map_search(I, st, c, it, op):
    """The entries come in any order: every entry the predicate holds for can be the one found."""
    m = I.strip(st, it.a[1]) if it.a[0] == 'mapref' else it.a[1]
    es = entries(I, st, m, 8)
    if es is None:
        return NotImplemented
    hits = []
    for k, v in es:
        x = T('tup', T('ref', ('P', k), ()), T('ref', ('P', v), ())) if it.a[0] == 'mapref' else T('tup', k, v)
        outs = I.call_value(st.copy(), c.args[-1], [T('ref', ('P', x), ()) if op == 'find' else x], c)
        if len(outs) != 1:
            return NotImplemented
        r = I.truth(outs[0][0], outs[0][1])
        if r is None or outs[0][0].trace is not st.trace:
            return NotImplemented
        if r != (op == 'all'):
            hits.append(x)
    if op == 'find':
        return [(st.copy(), Some(x)) for x in hits] or [(st, NONE)]
    return [(st, Bool(bool(hits) == (op == 'any')))]


def byte_classifier(I, st, c, kind, byref):
    def cl(t):
        if isinstance(t, str):
            e = C('char', ord(t)) if kind == 'char' else Int(ord(t))
        else:
            e = T('segb', t.a[0], 9)
        s = st.copy()
        if e.op == 'segb':
            I.purge(s, e)
            s.facts[('ne', e)] = seg(t).codes
        if kind == 'ref':
            e = T('ref', ('P', e), ())
        if byref:
            b = ('G', c.site, 'cl')
            s.store[b] = e
            e = T('ref', b, ())
        rs = {I.truth(s2, r) for s2, r in I.call_value(s, c.args[-1], [e], c)}
        return list(rs)[0] if len(rs) == 1 else None
    return cl


@over(L_ + 'windows')
def g_windows(I, st, c):
    v = val(I, st, c, 0)
    if not is_c(c.args[1], 'int'):
        return NotImplemented
    return [(st, T('iter', 'windows', v, c.args[1].a[1]))]


# ------------------------------------------------------------------ loops
def iters(st):
    """Positions of the iterators over segmented strings and known sequences in a state"""
    out = []
    for k, v in st.store.items():
        for x in iter_terms(v):
            out.append((k, x))
    return frozenset(out)


_it = {}


def iter_terms(v):
    r = _it.get(v)
    if r is None:
        r = _it[v] = tuple(x for x in subterms(v) if x.op == 'iter' and (len(x.a) == 4 and x.a[0] == 'seg' or len(x.a) == 3 and is_c(x.a[2], 'int')))
    return r


def in_run(st):
    """Runs that an iterator is currently inside of"""
    out = set()
    for _, x in iters(st):
        if len(x.a) == 4:
            ps = parts(x.a[1])
            i, j, ph = x.a[2].a
            if i < len(ps) and isrun(ps[i]) and ph == 1:
                out.add(ps[i].a[0])
    return out


def leafdiff(a, b, path=()):
    """Paths at which b is a + 1, or None if they differ in another way"""
    if a is b:
        return []
    la, lb = lin(a), lin(b)
    if la[0] == lb[0] and lb[1] == la[1] + 1 and (not la[0] or haslen(a) or a.op == 'bin' or b.op == 'bin'):
        return [path]
    if a.op == b.op and len(a.a) == len(b.a):
        out = []
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            if x is y or x == y:
                continue
            if isinstance(x, T) and isinstance(y, T):
                d = leafdiff(x, y, path + (i,))
            elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                d = []
                for k, (p, q) in enumerate(zip(x, y)):
                    if p is q or p == q:
                        continue
                    if not (isinstance(p, T) and isinstance(q, T)):
                        return None
                    e = leafdiff(p, q, path + ((i, k),))
                    if e is None:
                        return None
                    d += e
            else:
                return None
            if d is None:
                return None
            out += d
        return out
    return None


def tget(t, path):
    for p in path:
        if isinstance(p, tuple):
            if len(t.a) <= p[0] or not isinstance(t.a[p[0]], tuple) or len(t.a[p[0]]) <= p[1]:
                return None
            t = t.a[p[0]][p[1]]
        else:
            if len(t.a) <= p:
                return None
            t = t.a[p]
        if not isinstance(t, T):
            return None
    return t


def tset(t, path, x):
    if not path:
        return x
    p = path[0]
    if isinstance(p, tuple):
        l = list(t.a)
        m = list(l[p[0]])
        m[p[1]] = tset(m[p[1]], path[1:], x)
        l[p[0]] = tuple(m)
        return T(t.op, *l)
    l = list(t.a)
    l[p] = tset(l[p], path[1:], x)
    return T(t.op, *l)


def widen(st, wid, inr):
    for base, path, name in wid:
        if name not in inr or base not in st.store:
            continue
        v = tget(st.store[base], path)
        o = T('len', T('run', name, 'o'))
        if v is None or o in lin(v)[0]:
            continue
        d, c = lin(v)
        d = dict(d)
        d[o] = 1
        st.store[base] = tset(st.store[base], path, unlin_raw(d, c - 1))


def loop(I, body, fid, chain, h, st):
    """A loop over segmented strings or known sequences, each position on its own; None if that does not end."""
    blocks = body.loops[h]
    live = body.live_in[h]
    wid = set()
    for _ in range(12):
        heads = {}
        npos = {}
        outs = {'ret': [], 'exit': {}}
        backs = []
        changed = False

        def clean(s):
            for k in [k for k in s.store if k[0] == 'L' and k[1] == fid and k[2] not in live and k[2] not in body.borrowed]:
                del s.store[k]

        s0 = st.copy()
        clean(s0)
        heads[s0.key()] = s0
        work = [s0]
        n = 0
        while work and not changed:
            s = work.pop(0)
            n += 1
            if n > 1500:
                return None
            o = I.region(body, fid, chain, blocks, h, [s.copy()], h)
            outs['ret'].extend(o['ret'])
            for x, ss in o['exit'].items():
                outs['exit'].setdefault(x, []).extend(ss)
            for back in o['back']:
                clean(back)
                inr = in_run(back)
                widen(back, wid, inr)
                backs.append(back)
                k = back.key()
                old = heads.get(k)
                if old is not None:
                    j = old.copy()
                    I.join_facts(j, back)
                    if j.facts != old.facts:
                        heads[k] = j
                        work.append(j)
                    continue
                pk = iters(back)
                for s2 in npos.get(pk, ()):
                    if not inr or s2.trace is not back.trace or set(s2.store) != set(back.store):
                        continue
                    ds = []
                    for b, v in back.store.items():
                        if s2.store[b] is v:
                            continue
                        d = leafdiff(s2.store[b], v)
                        if d is None:
                            ds = None
                            break
                        ds += [(b, p) for p in d]
                    if ds and len(inr) == 1:
                        new = {(b, p, list(inr)[0]) for b, p in ds} - wid
                        if new:
                            wid |= new
                            changed = True
                            break
                if changed:
                    break
                l = npos.setdefault(pk, [])
                l.append(back)
                if len(l) > (40 if pk else 6):
                    return None
                heads[k] = back
                work.append(back)
        if not changed:
            if I.on_back:
                for b in backs:
                    I.on_back(body.name, h, b)
            return outs
    return None


def drive(I, st, c, step, done, it, ad=None):
    """An iterator consumed by a library function, position by position; None if that does not end."""
    if not iter_terms(it):
        return None
    heads = {}
    work = [(st, it)]
    res = []
    n = 0
    while work:
        s, i = work.pop(0)
        n += 1
        if n > 600:
            return None
        for s2, e, ni in models.iter_next(I, s.copy(), i, c):
            if ad is not None:
                I.write(s2, ad, ni)
            if e is None:
                res.append((s2, done(s2)))
                continue
            for s3, r in step(s2, e):
                if r is not None:
                    res.append((s3, r))
                    continue
                k = (s3.key(), ni)
                old = heads.get(k)
                if old is None:
                    heads[k] = s3
                    work.append((s3.copy(), ni))
                else:
                    j = old.copy()
                    I.join_facts(j, s3)
                    if j.facts != old.facts:
                        heads[k] = j
                        work.append((j.copy(), ni))
    return res
