"""Hash-consed abstract values: constants, variants/aggregates, references, and opaque provenance terms."""


class T:
    __slots__ = ('op', 'a', 'i', '_g', '_l')
    _tab = {}
    _n = 0

    def __new__(cls, op, *a):
        k = (op, a)
        t = cls._tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.a = a
            t.i = T._n
            t._g = None
            t._l = None
            T._n += 1
            cls._tab[k] = t
        return t

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.i


def C(kind, v):
    return T('c', kind, v)


TRUE = C('bool', True)
FALSE = C('bool', False)
UNIT = T('tup')
BOT = T('bot')


def Int(n):
    return C('int', n)


def Str(s):
    return C('str', s)


def Bool(b):
    return TRUE if b else FALSE


def is_c(t, kind=None):
    return t.op == 'c' and (kind is None or t.a[0] == kind)


def Agg(adt, variant, names, vals):
    return T('agg', adt, variant, tuple(names), tuple(vals))


OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'


def Some(v):
    return Agg(OPT, 'Some', ('0',), (v,))


NONE = Agg(OPT, 'None', (), ())


def Ok(v):
    return Agg(RES, 'Ok', ('0',), (v,))


def Err(v):
    return Agg(RES, 'Err', ('0',), (v,))


def Ref(base, path=()):
    # a reference to the pointee of an opaque pointer is that pointer
    if base[0] == 'H' and not path:
        return base[1]
    return T('ref', base, tuple(path))


STRY = ('run', 'cat', 'tostr', 'lossy', 'bytes', 'lower', 'upper', 'trim', 'fmt', 'sub', 'seq', 'push', 'arr', 'pushs')


def project(v, step):
    op = v.op
    if op == 'upd':
        b, s, x = v.a
        if s == step:
            return x
        if isinstance(s, str) and isinstance(step, str):
            return project(b, step)
        if isinstance(s, tuple) and s[0] == 'idx' and isinstance(step, tuple) and step[0] == 'idx' \
                and is_c(s[1]) and is_c(step[1]):
            return project(b, step)
        if isinstance(step, tuple) and step[0] == 'as':
            return v
        return T('p', v, step)
    if isinstance(step, str):
        if op == 'agg':
            try:
                return v.a[3][v.a[2].index(step)]
            except ValueError:
                return BOT
        if op == 'tup':
            i = int(step)
            return v.a[i] if i < len(v.a) else BOT
        if op == 'clo':
            i = int(step)
            return v.a[1][i] if i < len(v.a[1]) else BOT
        if op == 'bot':
            return BOT
        return T('f', v, step)
    if step[0] == 'as':
        if op == 'agg':
            return v if v.a[1] == step[1] else BOT
        if op == 'bot':
            return BOT
        return T('as', v, step[1])
    if step[0] == 'idx':
        if op in ('arr', 'seq') and is_c(step[1], 'int'):
            k = step[1].a[1]
            if 0 <= k < len(v.a):
                return v.a[k]
        if op == 'c' and v.a[0] in ('str', 'bytes') and is_c(step[1], 'int'):
            bs = v.a[1].encode() if v.a[0] == 'str' else v.a[1]
            if 0 <= step[1].a[1] < len(bs):
                return Int(bs[step[1].a[1]])
        return T('el', v, step[1])
    if step[0] == 'key':        # the value stored under a key of a map
        m = v
        while m.op == 'insert' and m.a[1] is not step[1] and is_c(m.a[1]) and is_c(step[1]):
            m = m.a[0]
        if m.op == 'insert' and m.a[1] is step[1]:
            return m.a[2]
        return T('mget', m, step[1])
    if step[0] == 'ci':
        if op in ('arr', 'seq'):
            k = step[1] if not step[3] else len(v.a) - step[1]
            if 0 <= k < len(v.a):
                return v.a[k]
        w, k = v, step[1]
        if op == 'cat':
            w = v.a[-1] if step[3] else v.a[0]
        if w.op == 'c' and w.a[0] in ('str', 'bytes'):
            bs = w.a[1].encode() if w.a[0] == 'str' else w.a[1]
            if k < len(bs) or (step[3] and k == len(bs)):
                return Int(bs[-k] if step[3] else bs[k])
        return T('el', v, Int(step[1]) if not step[3] else T('fromend', step[1]))
    return T('p', v, step)


def update(v, path, x):
    if not path:
        return x
    s = path[0]
    if isinstance(s, tuple) and s[0] == 'as':
        if v.op == 'agg':
            return update(v, path[1:], x)
        inner = update(T('as', v, s[1]), path[1:], x)
        return T('upd', v, s, inner)
    nv = update(project(v, s), path[1:], x)
    if isinstance(s, tuple) and s[0] == 'key':
        if nv is project(v, s):
            return v
        while v.op == 'insert' and v.a[1] is s[1]:
            v = v.a[0]
        return T('insert', v, s[1], nv)
    if isinstance(s, str):
        if v.op == 'agg' and s in v.a[2]:
            i = v.a[2].index(s)
            vals = list(v.a[3])
            vals[i] = nv
            return T('agg', v.a[0], v.a[1], v.a[2], tuple(vals))
        if v.op == 'tup' and int(s) < len(v.a):
            vals = list(v.a)
            vals[int(s)] = nv
            return T('tup', *vals)
        if v.op == 'clo':
            vals = list(v.a[1])
            vals[int(s)] = nv
            return T('clo', v.a[0], tuple(vals))
    if isinstance(s, tuple) and s[0] == 'idx' and v.op in ('arr', 'seq') and is_c(s[1], 'int') and s[1].a[1] < len(v.a):
        vals = list(v.a)
        vals[s[1].a[1]] = nv
        return T(v.op, *vals)
    return upd(v, s, nv)


def upd(v, s, nv):
    # keep updates of distinct fields in a canonical (sorted) order so equal stores are equal terms
    if v.op == 'upd' and isinstance(s, str) and isinstance(v.a[1], str):
        b, s2, x2 = v.a
        if s2 == s:
            return upd(b, s, nv)
        if s2 > s:
            return T('upd', upd(b, s, nv), s2, x2)
    if v.op == 'f' and False:
        pass
    if nv is project(v, s):
        return v
    return T('upd', v, s, nv)


def subterms(t, seen=None):
    """All distinct subterms (through references' index terms too)."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def has(t, op):
    return any(x.op == op for x in subterms(t))


def cat(parts):
    out = []
    for p in parts:
        if p.op == 'cat':
            out.extend(p.a)
        else:
            out.append(p)
    res = []
    for p in out:
        if is_c(p, 'str') and p.a[1] == '':
            continue
        if res and is_c(p, 'str') and is_c(res[-1], 'str'):
            res[-1] = Str(res[-1].a[1] + p.a[1])
        else:
            res.append(p)
    if not res:
        return Str('')
    if len(res) == 1:
        return res[0]
    return T('cat', *res)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 7:
        return '…'
    o, a = t.op, t.a
    if o == 'c':
        return repr(a[1])
    if o == 'agg':
        fs = ','.join(f'{n}:{show(v, d + 1)}' for n, v in zip(a[2], a[3]))
        nm = a[0].split('::')[-1]
        return f'{nm}::{a[1]}' + (f'{{{fs}}}' if fs else '') if nm != a[1] else f'{nm}{{{fs}}}'
    if o == 'f':
        return f'{show(a[0], d + 1)}.{a[1]}'
    if o == 'as':
        return f'({show(a[0], d + 1)} as {a[1]})'
    if o == 'el':
        return f'{show(a[0], d + 1)}[{show(a[1], d + 1)}]'
    if o == 'deref':
        return f'*{show(a[0], d + 1)}'
    if o == 'arg':
        return f'${a[0]}'
    if o == 'ref':
        return f'&{show(a[0], d + 1)}' + ''.join('.' + show(x, d + 1) for x in a[1])
    if o == 'call':
        return f'{a[0].split("::")[-1]}#{a[2] if len(a) > 2 else ""}({", ".join(show(x, d + 1) for x in a[1])})'
    return f'{o}(' + ', '.join(show(x, d + 1) for x in a) + ')'
