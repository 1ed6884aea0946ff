"""URLs and what they consist of."""
from ck import *
from reqlib import *
import wire
from request import const, maplen

U = 'http::url::url::URL'
AU, UI, AD, LO = 'http::url::authority::authority::Authority', 'http::url::authority::userinfo::Userinfo', 'http::url::authority::addr::Addr', 'http::url::location::Location'
VALUES = 'http::values::Values'


def call(ck, p, fn, *args):
    """The value of a side-effect free function on values of a path, or None"""
    st = p.st.copy()
    refs = []
    for i, a in enumerate(args):
        st.store[('X', 'arg', i)] = a
        refs.append(T('ref', ('X', 'arg', i), ()))
    outs = p.I.entry(ck.fn(fn), refs, st)
    vs = {deep(p.I, s, v) for s, v in outs}
    return vs.pop() if len(vs) == 1 else T('many', *vs)


def some(p, v):
    return p.I.strip(p.st, some_of(v)) if p.I.variant_of(p.st, v) == 'Some' else None


def ports(D):
    """u16 parsing of the text D yields the number of it (any), in-range"""
    def h(I, st, c):
        v = I.strip(st, c.args[0])
        return [(st, wire.okv(T('portof', v)))] if v is D else NotImplemented
    return {'core::str::<impl str>::parse': h}


def p28(ck):
    ck.rule('for urls with and without scheme, user info, port, path, query and fragment, and any text for each, every path of the parser gives exactly these parts; the port defaults to that of the scheme')
    X = R('Xu', ':@/?#', first='h')
    W, H, D = R('Wp', ':@/?#'), R('Hh', ':@/?#', first='h'), R('Dp', ':@/?#')
    P, K, V, F, K2, V2 = (R(x, '/?=&#\r') for x in ('Pp', 'Kk', 'Vv', 'Ff', 'Kk2', 'Vv2'))
    http, https = const(ck, 'http::url::scheme::Scheme::HTTP'), const(ck, 'http::url::scheme::Scheme::HTTPS')
    n = 0
    locs = [((), S(''), {}, None), (('/',), S('/'), {}, None), (('/', P), S('/', P), {}, None), (('/', P, '/'), S('/', P, '/'), {}, None), (('/', P, '/', F), S('/', P, '/', F), {}, None),
            (('/', P, '?', K, '=', V), S('/', P), {K: V}, None), (('/?', K, '=', V), S('/'), {K: V}, None), (('/', P, '#', F), S('/', P), {}, F), (('/', P, '?', K, '=', V, '#', F), S('/', P), {K: V}, F),
            (('/', P, '?a=', V, '&b=', V2), S('/', P), {Str('a'): V, Str('b'): V2}, None), (('/', P, '?a=', V, '&b=', V2, '#', F), S('/', P), {Str('a'): V, Str('b'): V2}, F),
            (('/', P, '?', K, '?', K2, '=', V), S('/', P), {S(K, '?', K2): V}, None), (('/', P, '?a=', V, '?', V2, '#', F, '?a=/', V2), S('/', P), {Str('a'): S(V, '?', V2)}, S(F, '?a=/', V2)),
            (('/', P, '?', K, '/', K2, '=', V, '/', V2), S('/', P), {S(K, '/', K2): S(V, '/', V2)}, None), (('/', P, '?a=', V, '=', V2, '&b==', V), S('/', P), {Str('a'): S(V, '=', V2), Str('b'): S('=', V)}, None),
            (('/', P, ':', V, '@', V2), S('/', P, ':', V, '@', V2), {}, None), (('/', P, '?a=http://', V, '@', V2), S('/', P), {Str('a'): S('http://', V, '@', V2)}, None),
            (('/#', F), S('/'), {}, F), (('/', P, '?a=&b=', V), S('/', P), {Str('a'): Str(''), Str('b'): V}, None)]
    hosts = [H, Str('localhost'), Str('home.org'), Str('h'), Str('ht'), Str('http.org'), Str('htt'), Str('https.org'), Str('httq'), Str('hi')]
    for sc, scheme, dport in (('', http, 80), ('http://', http, 80), ('https://', https, 443)):
        for user in (None, X, Str('http'), Str('https'), Str('ht'), Str('user')):
            for host in hosts:
                if host is not H and (user not in (None, X)):
                    continue
                for port in (None, D):
                    for loc, path, query, frag in locs:
                        if (user is not None or host is not H) and len(loc) not in (0, 2):
                            continue
                        if user is not None and not loc:
                            continue
                        t = S(sc, *((user, ':', W, '@') if user is not None else ()), host, *((':', port) if port is not None else ()), *loc)
                        n += 1
                        if user is not None and len(loc) == 2:
                            one(ck, S(sc, user, ':@', host, *((':', port) if port is not None else ()), *loc), scheme, user, Str(''), host, T('portof', D) if port is not None else Int(dport), path, query, frag, ports(D))
                        one(ck, t, scheme, user, W, host, T('portof', D) if port is not None else Int(dport), path, query, frag, ports(D))
    ck.floor('url layouts', n, 400)
    bad = {'core::str::<impl str>::parse': lambda I, st, c: [(st, wire.errv(T('badport')))]}
    for sc in ('', 'http://', 'https://'):
        for user in (None, X):
            for loc in (('/',), ('/', P)) + (() if user else ((),)):
                t = S(sc, *((user, ':', W, '@') if user is not None else ()), H, ':', D, *loc)
                for p in ck.run(f'{U}::from', [t], segs=True, nojoin=True, keep=lambda x: False, overrides=bad):
                    ck.ob(p.I.variant_of(p.st, p.ret) == 'Err', 'url:badport', ck.sp(f'{U}::from'), f'{t!r} is accepted though its port is not a number')


def one(ck, t, scheme, user, pw, host, port, path, query, frag, ov):
    ps = ck.run(f'{U}::from', [t], segs=True, nojoin=True, keep=lambda x: False, overrides=ov)
    key = 'url'
    w = ck.sp(f'{U}::from')
    s = repr(t).replace(', w)', ')')
    ck.ob(len(ps) > 0, key + ':any', w, f'{s} has no outcome')
    for p in ps:
        if port.op == 'portof' and p.I.truth(p.st, p.I.binop(p.st, 'Eq', port, Int(0))) is True:
            continue
        if not ck.ob(p.I.variant_of(p.st, p.ret) == 'Ok', key + ':ok', w, f'{s} is refused: {deep(p.I, p.st, p.ret)!r}'):
            continue
        v = p.I.strip(p.st, fld(p.ret, ('as', 'Ok'), '0'))
        eq = lambda a, b: a is not None and equiv(p.I, p.st, deep(p.I, p.st, a), b)
        au, lo = call(ck, p, f'{U}::authority', v), call(ck, p, f'{U}::location', v)
        got = call(ck, p, f'{U}::scheme', v)
        ck.ob(eq(got, scheme), key + ':scheme', w, f'the scheme of {s} is {got!r}')
        ui = call(ck, p, f'{AU}::userinfo', au)
        if user is None:
            ck.ob(p.I.variant_of(p.st, ui) == 'None', key + ':userinfo', w, f'the user info of {s} is {ui!r}')
        else:
            u = some(p, ui)
            ck.ob(u is not None and eq(call(ck, p, f'{UI}::username', u), user) and eq(call(ck, p, f'{UI}::password', u), pw), key + ':userinfo', w, f'the user info of {s} is {ui!r}')
        ad = call(ck, p, f'{AU}::addr', au)
        got = call(ck, p, f'{AD}::host', ad)
        ck.ob(eq(got, host), key + ':host', w, f'the host of {s} is {got!r}')
        got = call(ck, p, f'{AD}::port', ad)
        ck.ob(eq(got, port), key + ':port', w, f'the port of {s} is {got!r}')
        got = call(ck, p, f'{LO}::path', lo)
        ck.ob(eq(got, path), key + ':path', w, f'the path of {s} is {got!r}')
        q = call(ck, p, f'{LO}::query', lo)
        ck.ob(vals(p, q, query), key + ':query', w, f'the query of {s} is {q!r}')
        f = call(ck, p, f'{LO}::fragment', lo)
        ck.ob(p.I.variant_of(p.st, f) == 'None' if frag is None else eq(some(p, f), frag), key + ':fragment', w, f'the fragment of {s} is {f!r}')


def vals(p, x, want):
    m = project(x, '0')
    ks = set()
    while m.op == 'insert':
        if m.a[1] not in ks and not (m.a[1] in want and equiv(p.I, p.st, m.a[2], T('seq', want[m.a[1]]))):
            return False
        ks.add(m.a[1])
        m = m.a[0]
    return m.op == 'map0' and ks == set(want)


PROPS = {'P28': p28}
