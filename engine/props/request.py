"""Requests from the wire: what a peer sends against the request a handler sees, or the error the peer gets."""
import re

from ck import *
from reqlib import *
from route import METHODS, METHOD

HOST = 'Host: h\r\n'
KNOWN = ['Host', 'Connection', 'Content-Type', 'Content-Length', 'Authorization', 'Accept-Encoding', 'Cookie', 'Upgrade', 'Transfer-Encoding', 'Expect', 'Date', 'Server',
         'Sec-WebSocket-Key', 'Sec-WebSocket-Version', 'Sec-WebSocket-Protocol', 'Content-Encoding', 'Set-Cookie', 'Keep-Alive', 'Proxy-Connection', 'X-Forwarded-For']

# the headers that have a meaning for the server
MEANT = ['Host', 'Connection', 'Content-Type', 'Content-Length', 'Authorization', 'Accept-Encoding', 'Cookie', 'Upgrade', 'Transfer-Encoding', 'Expect']


def aside():
    """A header line that must make no difference: any other name, any value"""
    return [R('Nfree', ':\r\n', ni=MEANT), ': ', R('Vfree', '\r\n'), '\r\n']


def T_():
    return R('T', ' \r\n/?#&=')


def H_():
    return R('H', '\r\n')


def error(g, code):
    """Is what was written exactly one complete response with this status and an empty body?"""
    return g.sent is g.out and error_in(g.out, code)


def error_in(t, code):
    if not is_c(t, 'str'):
        return False
    m = re.fullmatch(r'HTTP/1\.[01] (\d+) [^\r\n]+\r\n((?:[^\r\n:]+: [^\r\n]*\r\n)*)\r\n', t.a[1])
    return bool(m) and m[1] == str(code) and 'content-length: 0\r\n' in m[2].lower() and 'transfer-encoding' not in m[2].lower()


def toolarge(g):
    return any(f.op == 'bin' and f.a[0] == 'Lt' and is_c(f.a[1], 'int') and f.a[1].a[1] >= 8192 and seg.haslen(f.a[2]) and k is True
               for f, k in g.p.st.facts.items() if not isinstance(f, tuple))


def within(g):
    """The lengths found to be within the limit of a head."""
    out = set()
    for f, k in g.p.st.facts.items():
        if not isinstance(f, tuple) and f.op == 'bin' and f.a[0] in ('Lt', 'Le', 'Gt', 'Ge') and isinstance(k, bool):
            a, b = f.a[1:]
            if is_c(a, 'int') and a.a[1] >= 8192 and seg.haslen(b) and not (k if f.a[0][0] == 'L' else not k):
                out.add(b)
            if is_c(b, 'int') and b.a[1] >= 8192 and seg.haslen(a) and (k if f.a[0][0] == 'L' else not k):
                out.add(a)
    return out


def refused(ck, key, chunks, code, ov=None, fail=False, least=1, st=None):
    """Every outcome is an error answered once with this status."""
    gs = explore(ck, chunks, fail, ov, st=st)
    ck.ob(len(gs) >= least, key + ':any', ck.sp(FROM), f'{show(chunks)}: the request is read to no outcome')
    for g in gs:
        if 'None' in g.found:
            ck.ob(not g.ok and error(g, 404), key + ':404', ck.sp(FROM), f'{show(chunks)} for a route that does not exist is answered by {g.out!r} ({g.var})')
            continue
        if toolarge(g) and not g.fetches:
            ck.ob(not g.ok and error(g, 400), key + ':large', ck.sp(FROM), f'a head that is too large is answered by {g.out!r} ({g.var})')
            continue
        ck.ob(not g.ok, key + ':err', ck.sp(FROM), f'{show(chunks)} is malformed, but is accepted as a request')
        ck.ob(error(g, code), key + ':status', ck.sp(FROM), f'{show(chunks)} must be answered once with {code} and an empty body, but gets {g.out!r}')
    return gs


AGAIN = ('from the request as it was read',)


def show(chunks):
    return ' | '.join(repr(c[0] if isinstance(c, tuple) else c).replace(', w)', ')') for c in chunks)


def accepted(ck, key, chunks, want=(), method=None, path=None, ov=None, st=None, more=None, most=4):
    """Every outcome for an existing route is a request that the accessors describe as wanted, and nothing is written yet."""
    gs = explore(ck, chunks, ov=ov, st=st)
    n = 0
    for g in gs:
        if toolarge(g) and not g.fetches:
            continue
        if not ck.ob(len(g.fetches) == 1, key + ':fetch', ck.sp(FROM), f'{show(chunks)}: {len(g.fetches)} route lookups ({g.var}, {g.out!r})'):
            continue
        e = g.fetches[0]
        if path is not None:
            ck.ob(any(same(g, x, path) for x in eargs(e)), key + ':lookup-path', ewhere(e), f'{show(chunks)}: the path looked up is not {path!r}: {eargs(e)[1:]!r}')
        if method is not None:
            ck.ob(any(same(g, x, method) for x in eargs(e)), key + ':lookup-method', ewhere(e), f'{show(chunks)}: the method looked up is not {method!r}: {eargs(e)[1:]!r}')
        if g.found == ['None']:
            ck.ob(not g.ok and error(g, 404), key + ':404', ck.sp(FROM), f'{show(chunks)} for a route that does not exist is answered by {g.out!r} ({g.var})')
            continue
        if not ck.ob(g.ok, key + ':ok', ck.sp(FROM), f'{show(chunks)} is well formed, but is refused with {g.out!r}'):
            continue
        n += 1
        ck.ob(is_c(g.out, 'str') and g.out.a[1] == '', key + ':silent', ck.sp(FROM), f'{show(chunks)}: {g.out!r} is written before the handler runs')
        pr = some_of(eret(e))
        ck.ob(g.node is project(pr, '0') and g.fields is project(pr, '1'), key + ':node', ck.sp(FROM), f'{show(chunks)}: the handler and path parameters are not those of the lookup')
        st0 = g.st
        sts = [st0]
        for w in want:
            if w is AGAIN:
                sts = [st0.copy()]
                continue
            a, v = w[0], w[-1]
            nxt = []
            for s in sts:
                for s2, got in g.all(s, a, *w[1:-1]):
                    g.st = s2
                    ck.ob(v(g, got) if callable(v) else same(g, got, v), f'{key}:{a}' + ''.join(':' + str(x.a[1]) for x in w[1:-1] if is_c(x)), ck.sp(f'{RQ}::{a}'),
                          f'{show(chunks)}: {a}({", ".join(map(repr, w[1:-1]))}) is {got!r}' + ('' if callable(v) else f' instead of {v!r}'))
                    nxt.append(s2)
            ck.ob(0 < len(nxt) <= most, f'{key}:{a}:outcomes', ck.sp(f'{RQ}::{a}'), f'{show(chunks)}: {a} has {len(nxt)} outcomes')
            sts = nxt[:4]
        g.st = st0
        if more:
            more(g)
    ck.ob(n > 0, key + ':some', ck.sp(FROM), f'{show(chunks)} is never accepted')
    return gs


def same(g, a, b):
    a = g.I.strip(g.st, a)
    return a is b or equiv(g.I, g.st, deep(g.I, g.st, a), b)


def const(ck, name):
    I = absint.Interp(ck.p, models.M)
    ck.fn(name)
    v = I.eval_const(ck.p.find(name), None)
    return deep(I, absint.State({}, {}, absint.NIL), v)


def opt(v):
    return T('agg', 'std::option::Option', 'None', (), ()) if v is None else T('agg', 'std::option::Option', 'Some', ('0',), (v,))


def some(v):
    """The value is Some(v) / Some of something v accepts"""
    return lambda g, x: g.I.variant_of(g.st, x) == 'Some' and (v(g, some_of(x)) if callable(v) else same(g, some_of(x), v))


def none(g, x):
    return g.I.variant_of(g.st, x) == 'None'


def okay(v):
    return lambda g, x: g.I.variant_of(g.st, x) == 'Ok' and (v(g, project(project(x, ('as', 'Ok')), '0')) if callable(v) else same(g, project(project(x, ('as', 'Ok')), '0'), v))


def view(ck, fn, want):
    """The value, seen through one of its accessor functions, is `want`"""
    def f(g, x):
        g.st.store[('X', 'view')] = x
        outs = g.I.entry(ck.fn(fn), [T('ref', ('X', 'view'), ())], g.st)
        return bool(outs) and all((want(g, deep(g.I, s, v)) if callable(want) else same(g, deep(g.I, s, v), want)) for s, v in outs)
    return f


def both(*fs):
    return lambda g, x: all(f(g, x) for f in fs)


def lenis(n):
    def f(g, x):
        return is_c(x, 'int') and x.a[1] == n or x.op == 'len' and maplen(x.a[0]) == n
    return f


def maplen(m):
    ks = set()
    while m.op == 'insert':
        if not is_c(m.a[1]) and m.a[1].op != 'run':
            return None
        ks.add(m.a[1])
        m = m.a[0]
    return len(ks) if m.op == 'map0' else None


# ------------------------------------------------------------------ P20
def p20_line(ck):
    ck.rule('for each way a request line can be malformed (with any text for the pieces), every path through the reader writes exactly one complete error response and returns an error')
    T0, H = T_(), H_()
    M = R('M', ' \r\n', solid=False, ne=METHODS)
    V = R('V', ' \r\n', solid=False, ne=['HTTP/1.0', 'HTTP/1.1'])
    rest = S(HOST, '\r\n')
    n = 0
    for key, line, code in (('method', S(M, ' /', T0, ' HTTP/1.1\r\n'), 405), ('version', S('GET /', T0, ' ', V, '\r\n'), 505),
                            ('version-lf', S('GET /', T0, ' ', V, '\n'), 505), ('no-version', S('GET /', T0, '\r\n'), 400), ('no-version-lf', S('GET /', T0, '\n'), 400),
                            ('version-space', S('GET /', T0, ' HTTP/1.1 \r\n'), 400), ('fourth', S('GET /', T0, ' HTTP/1.1 x\r\n'), 400),
                            ('blank', S('\r\n'), 400), ('one-piece', S('GET\r\n'), 400), ('one-piece-lf', S('GET\n'), 400), ('any-piece', S(M, '\r\n'), 400), ('no-version-space', S('GET /', T0, ' \r\n'), 505)):
        refused(ck, 'line:' + key, [S(line, rest)], code)
        n += 1
    for v in ('HTTP/2', 'HTTP/2.0', 'HTTP/0.9', 'HTTP/1.2', 'http/1.1', 'HTTP/1.', 'HTTP/1', 'HTTP', '1.1', 'HTTP/1.10', 'HTTP/11', 'HTTP/3'):
        refused(ck, 'version:' + v, [S('GET /', T0, ' ', v, '\r\n', rest)], 505)
    for m in ('get', 'Get', 'GETS', 'GE', 'HELLO', 'BREW', 'OPTION', 'POSTS', 'PATC'):
        refused(ck, 'method:' + m, [S(m, ' /', T0, ' HTTP/1.1\r\n', rest)], 405)
    ck.floor('malformed request lines', n, 12)


def p20_head(ck):
    ck.rule('a head that cannot be used (no Host, Authorization or Cookie or Content-Length that cannot be read) or that cannot be read (error, too large) is answered once and refused; a peer that sends nothing gets nothing')
    T0, H = T_(), H_()
    N = R('N', ':\r\n', ni=KNOWN)
    X = R('X', '\r\n')
    for v in ('1.0', '1.1'):
        refused(ck, f'nohost:{v}', [S('GET /', T0, f' HTTP/{v}\r\n\r\n')], 417)
        refused(ck, f'nohost-other:{v}', [S('GET /', T0, f' HTTP/{v}\r\n', N, ': ', X, '\r\n\r\n')], 417)
        for key, e, l in (('empty', '\r\n', ()), ('empty-lf', '\n', ()), ('junk', '\r\n', (R('J', ':\r\n'), '\r\n'))):
            refused(ck, f'nohost-{key}:{v}', [S('POST /', T0, f' HTTP/{v}', e, *l, e, 'Host: h\r\nContent-Length: 0\r\n\r\n')], 417)
            refused(ck, f'nohost-{key}-read:{v}', [S('POST /', T0, f' HTTP/{v}', e, *l, e), S('Host: h\r\nContent-Length: 0\r\n\r\n')], 417)
    C = R('C', '=;\r\n')
    refused(ck, 'cookie', [S('GET /', T0, ' HTTP/1.1\r\n', HOST, 'Cookie: ', C, '\r\n\r\n')], 400)
    refused(ck, 'cookie-second', [S('GET /', T0, ' HTTP/1.1\r\n', HOST, 'Cookie: a=b; ', C, '\r\n\r\n')], 400)
    for m in ('POST', 'PUT', 'PATCH'):
        for l in ('abc', '1x', '', '-2', '-100', '1.5', '0x10', '12 3'):
            refused(ck, f'length:{m}:{l}', [S(m, ' /', T0, ' HTTP/1.1\r\n', HOST, 'Content-Length: ', l, '\r\n\r\n')], 411)
    refused(ck, 'auth-short', [S('GET /', T0, ' HTTP/1.1\r\n', HOST, 'Authorization: abc\r\n\r\n')], 400)
    D = R('D', '\r\n ')
    for name, dec in (('auth-decode', lambda I, st, c: [(st, wire.errv(T('bad64')))]), ('auth-nocolon', lambda I, st, c: [(st, wire.okv(R('U', ':', solid=False)))]),
                      ('auth-nouser', lambda I, st, c: [(st, wire.okv(S(':', R('U', '', solid=False))))]), ('auth-empty', lambda I, st, c: [(st, wire.okv(S('')))])):
        refused(ck, name, [S('GET /', T0, ' HTTP/1.1\r\n', HOST, 'Authorization: Basic ', D, '\r\n\r\n')], 400, ov=decode(ck, dec))
    # the connection
    gs = explore(ck, [])
    for g in gs:
        ck.ob(not g.ok and is_c(g.out, 'str') and g.out.a[1] == '', 'nothing', ck.sp(FROM), f'a peer that closes without sending anything gets {g.out!r} ({g.var})')
    ck.ob(len(gs) > 0, 'nothing:any', ck.sp(FROM), 'no outcome')
    # a head that ends before its empty line
    Y = R('Y', '\r\n')
    for key, chunks in (('method', [S('GE')]), ('target', [S('GET /', T0)]), ('version', [S('GET /', T0, ' HTTP/1.1')]), ('line', [S('GET /', T0, ' HTTP/1.1\r\n')]),
                        ('host', [S('GET /', T0, ' HTTP/1.1\r\n', HOST)]), ('name', [S('GET /', T0, ' HTTP/1.1\r\n', HOST, 'X-Y')]), ('value', [S('GET /', T0, ' HTTP/1.1\r\n', HOST, N, ': ', Y)]),
                        ('read', [S('GET /', T0, ' HTTP/1.1\r\n', HOST), S(N, ': ', Y, '\r\n')]), ('length', [S('POST /', T0, ' HTTP/1.1\r\n', HOST, 'Content-Length: 1')]), ('piece', [R('Z', '\r\n')])):
        gs = refused(ck, 'early:' + key, chunks, 400)
        ck.ob(all(not g.fetches for g in gs), f'early:{key}:route', ck.sp(FROM), f'{show(chunks)}: a route is looked up for a head that ended early')
    refused(ck, 'readerr', [], 400, fail=True)
    refused(ck, 'readerr-later', [S('GET /', T0, ' HTTP/1.1\r\n')], 400, fail=True)
    # a head without an end: reading stops
    big = [R(f'L{i}', '\r\n', solid=False) for i in range(3)]
    stops = 0
    for key, first in (('value', S('GET /', T0, ' HTTP/1.1\r\nX: ', big[0])), ('line', S('GET /', big[0])), ('lines', S('GET /', T0, ' HTTP/1.1\r\n', HOST, N, ': ', X, '\r\nX: ', big[0]))):
        for g in explore(ck, [first, big[1], big[2]]):
            if toolarge(g):
                stops += 1
                ck.ob(not g.ok and error(g, 400) and not g.fetches, 'endless', ck.sp(FROM), f'a head that does not end is answered by {g.out!r} ({g.var})')
            else:
                ck.ob(len(within(g)) >= 3, f'endless:{key}:unchecked', ck.sp(FROM), f'a head that has not ended is read on without a look at its length ({len(within(g))} of 3 reads are limited)')
    ck.ob(stops > 0, 'endless:limit', ck.sp(FROM), 'a head that does not end is read without limit')


def decode(ck, f):
    """Override of the base64 decoder: its result on any text."""
    n = ck.p.find('utils::cryptos::base64::Base64Decoder::decode')
    names = [x for x in ck.p.raw_fns if x.endswith('::decode') and 'base64' in x.lower()]
    if not names:
        raise Anchor('no base64 decoder in the tree')
    return {x: f for x in names}


def p20_body(ck):
    ck.rule('a body that cannot be read is answered once with an error status and refused')
    T0 = T_()
    L, B = R('L', '\r\n:'), R('B', '', solid=False)
    B2 = R('B2', '', solid=False)
    for m in ('POST', 'PUT', 'PATCH'):
        refused(ck, f'bodyerr:{m}', [S(m, ' /', T0, ' HTTP/1.1\r\n', HOST, 'Content-Length: ', L, '\r\n\r\n', B)], 400, ov=number(L, seg.length(S(B, B2))), fail=True)
        refused(ck, f'enderr:{m}', [S(m, ' /', T0, ' HTTP/1.1\r\n', HOST, 'Content-Length: -1\r\n\r\n', B)], 411, fail=True)


def number(run, v):
    def h(I, st, c):
        return [(st, wire.okv(v))] if I.strip(st, c.args[0]) is run else NotImplemented
    return {'core::str::<impl str>::parse': h}


# ------------------------------------------------------------------ P21
def p21(ck):
    ck.rule('for each of the 12 methods, both versions, and any target, every path accepts the request and the accessors return exactly the method, version, path, parameters sent; the lookup gets that path and method')
    T0, U = T_(), R('U', ' \r\n/?#&=')
    K, V, K2, V2 = (R(x, ' \r\n/?#&=') for x in ('K', 'V', 'K2', 'V2'))
    A_, F = R('A', ' \r\n/?#&='), R('F', ' \r\n/?#&=')
    mv = {m: const(ck, f'{METHOD}::{m}') for m in METHODS}
    vv = {v: const(ck, f'http::version::Version::HTTP_{v}') for v in ('10', '11')}
    for m in METHODS:
        for v in ('10', '11'):
            accepted(ck, f'{m}:{v}', [S(m, ' /', T0, f' HTTP/{v[0]}.{v[1]}\r\n', HOST, '\r\n')], [('method', mv[m]), ('version', vv[v]), ('path', S('/', T0)), ('count_param_value', Int(0)),
                     ('version_major', Int(1)), ('version_minor', Int(int(v[1])))], mv[m], S('/', T0))
    for m in ('GET', 'POST', 'HEAD'):
        accepted(ck, f'{m}:free', [S(m, ' /', T0, ' HTTP/1.1\r\n', HOST, *aside(), '\r\n')], [('method', mv[m]), ('version', vv['11']), ('path', S('/', T0)), ('count_param_value', Int(0))], mv[m], S('/', T0))
    G = mv['GET']
    tail = S(' HTTP/1.1\r\n', HOST, '\r\n')
    for key, target, path, params in (
            ('root', S('/'), S('/'), {}), ('two', S('/', T0, '/', U), S('/', T0, '/', U), {}), ('slash', S('/', T0, '/'), S('/', T0, '/'), {}),
            ('param', S('/', T0, '?', K, '=', V), S('/', T0), {K: V}), ('params', S('/', T0, '?', K, '=', V, '&', K2, '=', V2), S('/', T0), {K: V, K2: V2}),
            ('root-param', S('/?', K, '=', V), S('/'), {K: V}), ('valueless', S('/', T0, '?', K, '='), S('/', T0), {K: S('')}),
            ('empty-value', S('/', T0, '?a=&b=', V), S('/', T0), {Str('a'): Str(''), Str('b'): V}), ('empty-fragment', S('/', T0, '?a=', V, '&b=#', F), S('/', T0), {Str('a'): V, Str('b'): Str('')}),
            ('double', S('/', T0, '//', U), S('/', T0, '//', U), {}), ('double-first', S('//', T0), S('//', T0), {}), ('slash-param', S('/', T0, '/?a=', V), S('/', T0, '/'), {Str('a'): V}),
            ('no-fragment', S('/', T0, '?a=', V, '#'), S('/', T0), {Str('a'): V}), ('path-no-fragment', S('/', T0, '#'), S('/', T0), {}),
            ('fragment', S('/', T0, '?', K, '=', V, '#', F), S('/', T0), {K: V}), ('fragment-only', S('/', T0, '#', F), S('/', T0), {}),
            ('const', S('/', T0, '?a=1&b=2&c=3'), S('/', T0), {Str('a'): Str('1'), Str('b'): Str('2'), Str('c'): Str('3')}),
            ('question-key', S('/', T0, '?', K, '?', F, '=', V), S('/', T0), {S(K, '?', F): V}), ('question-value', S('/', T0, '?a=', V, '?', V2), S('/', T0), {Str('a'): S(V, '?', V2)}),
            ('question-both', S('/', T0, '??a=?', V, '&b=?'), S('/', T0), {Str('?a'): S('?', V), Str('b'): Str('?')}), ('question-fragment', S('/', T0, '?a=', V, '#', F, '?b=', V2), S('/', T0), {Str('a'): V}),
            ('slash-query', S('/', T0, '?', K, '/', F, '=', V, '/', V2), S('/', T0), {S(K, '/', F): S(V, '/', V2)}), ('equals-value', S('/', T0, '?a=', V, '=', V2, '&b==', V), S('/', T0), {Str('a'): S(V, '=', V2), Str('b'): S('=', V)}),
            ('marks-fragment', S('/', T0, '#', F, '?a=', V, '&b=/', V2), S('/', T0), {}), ('path-marks', S('/', T0, '&', U, '=', V), S('/', T0, '&', U, '=', V), {}),
            ('middle', S('/', T0, '?a=', V, '&b=', V2, '&c=3'), S('/', T0), {Str('a'): V, Str('b'): V2, Str('c'): Str('3')})):
        want = [('path', path)]
        if not (K in params and K2 in params):
            want += [('count_param_value', lenis(len(params)))]
            if all(is_c(k) for k in params):
                want.append(('have_param_value', Str('zz'), FALSE))
        want += [('param_value', k, some(v)) for k, v in params.items() if not (k is K and K2 in params)]
        want += [('have_param_value', k, TRUE) for k in params]
        accepted(ck, 'target:' + key, [S('GET ', target, tail)], want, G, path)
    for key, line in (('lf', S('GET /', T0, ' HTTP/1.1\n')), ('crlf', S('GET /', T0, ' HTTP/1.1\r\n'))):
        accepted(ck, 'end:' + key, [S(line, 'Host: h\n\n')], [('path', S('/', T0)), ('header_get', Str('Host'), some(Str('h')))], G, S('/', T0))


def p21_split(ck):
    ck.rule('the same request is understood however its head is split over reads: the pieces end in the method, the target, the version, a line end, a header name or value, or the blank line')
    T0, U, V = T_(), R('U', ' \r\n/?#&='), R('V', '\r\n')
    W = R('W', '\r\n')
    G = const(ck, f'{METHOD}::GET')
    want = [('path', S('/', T0, '/', U)), ('header_get', Str('Host'), some(S(V, W))), ('method', G)]
    whole = [S('GE'), S('T '), S('/', T0), S('/', U), S(' HTT'), S('P/1.1'), S('\r'), S('\nHo'), S('st: ', V), S(W, '\r'), S('\n'), S('\r'), S('\n')]
    n = 0
    for i in range(1, len(whole)):
        accepted(ck, f'split:{i}', [S(*whole[:i]), S(*whole[i:])], want, G, S('/', T0, '/', U))
        n += 1
    accepted(ck, 'split:many', [S(*whole[:4]), S(*whole[4:8]), S(*whole[8:])], want, G, S('/', T0, '/', U))
    ck.floor('splits of a request head', n, 12)


# ------------------------------------------------------------------ P22
def hline(T0, *h):
    return S('GET /', T0, ' HTTP/1.1\r\n', *h, '\r\n')


def p22(ck):
    ck.rule('header lines with any name and value, at any position, with any of the allowed spacings and line ends, are exactly the headers the accessors return; names the server itself uses are found in any letter case')
    T0 = T_()
    N, N2 = R('N', ':\r\n', ni=KNOWN), R('N2', ':\r\n', ni=KNOWN)
    V, V2, V3 = R('V', '\r\n'), R('V2', '\r\n'), R('V3', '\r\n')
    n = 0

    def case(key, lines, want):
        nonlocal n
        n += 1
        accepted(ck, key, [hline(T0, *lines)], want, path=S('/', T0))
    hst = ('header_get', Str('Host'), some(Str('h')))
    for sp in (': ', ':', ':   ', ':\t', ': \t '):
        case('space:' + repr(sp), [HOST, N, sp, V, '\r\n'], [hst, ('header_get', N, some(V)), ('header', headers({Str('Host'): Str('h'), N: V}))])
    for tr in (' ', '  ', '\t'):
        case('trail:' + repr(tr), [HOST, N, ': ', V, tr, '\r\n'], [hst, ('header_get', N, some(V))])
    case('lf', ['Host: h\n', 'X-0: ', V, '\n', 'X-C: ', V2, '\n'], [hst, ('header_get', Str('X-0'), some(V)), ('header_get', Str('X-C'), some(V2))])
    case('first', [N, ': ', V, '\r\n', HOST], [hst, ('header_get', N, some(V))])
    for i in range(3):
        ls = [[f'X-{j}: ', v, '\r\n'] for j, v in ((1, V), (2, V2), (3, V3))]
        ls = ls[i:] + ls[:i]
        case(f'three:{i}', [HOST] + [x for l in ls for x in l], [hst, ('header_get', Str('X-1'), some(V)), ('header_get', Str('X-2'), some(V2)), ('header_get', Str('X-3'), some(V3)),
             ('header', headers({Str('Host'): Str('h'), Str('X-1'): V, Str('X-2'): V2, Str('X-3'): V3})), ('header_get', Str('X-4'), none)])
    case('empty', [HOST, 'X-1:\r\nX-2: \r\nX-3: ', V, '\r\n'], [hst, ('header_get', Str('X-3'), some(V)), ('header_get', Str('X-1'), some(Str(''))), ('header_get', Str('X-2'), some(Str('')))])
    case('colon', [HOST, 'X-1: ', R('A', ':\r\n'), ':', R('B', ':\r\n'), '\r\n'], [hst, ('header_get', Str('X-1'), some(S(R('A', ':\r\n'), ':', R('B', ':\r\n'))))])
    G = R('G', ':\r\n')
    case('nocolon', [HOST, G, '\r\nX-1: ', V, '\r\n'], [hst, ('header_get', Str('X-1'), some(V)), ('header', headers({Str('Host'): Str('h'), Str('X-1'): V}))])
    case('nocolon-first', [G, '\r\n', HOST, 'X-1: ', V, '\r\n'], [hst, ('header_get', Str('X-1'), some(V))])
    case('repeat', [HOST, 'X-1: ', V, '\r\nX-2: ', V3, '\r\nX-1: ', V2, '\r\n'], [hst, ('header_get', Str('X-1'), some(V2)), ('header_get', Str('X-2'), some(V3))])
    case('repeat-empty', [HOST, 'X-1: ', V, '\r\nX-2: ', V3, '\r\nX-1:\r\n'], [hst, ('header_get', Str('X-1'), some(Str(''))), ('header_get', Str('X-2'), some(V3))])
    case('empty-repeat', [HOST, 'X-1: \r\nX-2: ', V3, '\r\nX-1: ', V, '\r\n'], [hst, ('header_get', Str('X-1'), some(V)), ('header_get', Str('X-2'), some(V3))])
    case('repeat-three', [HOST, 'X-1: ', V, '\r\nX-1: ', V2, '\r\nX-1: ', V3, '\r\n'], [hst, ('header_get', Str('X-1'), some(V3)), ('header', headers({Str('Host'): Str('h'), Str('X-1'): V3}))])
    for nm in ('host', 'HOST', 'hOST'):
        case('case:' + nm, [nm, ': h\r\n', 'X-1: ', V, '\r\n'], [('header_get', Str(nm), some(Str('h'))), ('header_get', Str('X-1'), some(V))])
    ck.floor('header layouts', n, 23)


def headers(want):
    """The header collection holds exactly these names and values"""
    def f(g, x):
        m = project(x, '0')
        ks = set()
        while m.op == 'insert':
            if m.a[1] not in ks and not (m.a[1] in want and same(g, m.a[2], T('seq', want[m.a[1]]))):
                return False
            ks.add(m.a[1])
            m = m.a[0]
        return m.op == 'map0' and ks == set(want)
    return f


def p22_meaning(ck):
    ck.rule('Content-Type, Accept-Encoding, Connection and client address reach the request as sent, in any letter case of the header name and at any position')
    T0 = T_()
    V = R('V', '\r\n')
    types = {'text/html': 'TEXT_HTML', 'application/json': 'APPLICATION_JSON', 'application/x-www-form-urlencoded': 'APPLICATION_X_WWW_FORM_URL_ENCODED'}
    for nm in ('Content-Type', 'content-type', 'CONTENT-TYPE', 'Content-type'):
        for t, c in types.items():
            accepted(ck, f'{nm}:{t}', [hline(T0, HOST, f'{nm}: {t}\r\nX-1: ', V, '\r\n')], [('content_type', some(const(ck, f'http::header::content_type::ContentType::{c}')))])
    for nm in ('Accept-Encoding', 'accept-encoding', 'ACCEPT-ENCODING'):
        for t, c in (('gzip', 'GZip'), ('deflate', 'Deflate'), ('zlib', 'ZLib')):
            accepted(ck, f'{nm}:{t}', [hline(T0, f'{nm}: {t}\r\n', HOST, 'X-1: ', V, '\r\n')], [('accept_encoding', lambda g, x, c=c: g.I.variant_of(g.st, x) == c)])
    for key, more in (('plain', []), ('free', aside())):
        accepted(ck, key, [hline(T0, HOST, *more)], [('content_type', none), ('accept_encoding', lambda g, x: g.I.variant_of(g.st, x) == 'None'), ('client', A('peer')), ('addr', A('local')), ('cookies', T('seq')),
                 ('userinfo', none), ('body', T('seq'))])


def closing(ck, g):
    """Does the accepted request say that the connection is to be closed?"""
    return deep(g.I, g.st, project(project(g.I.read(g.st, (('X', 'req'), ())), 'request'), 'close'))


# ------------------------------------------------------------------ P25
def p25(ck):
    ck.rule('for POST, PUT, PATCH and any body, however it is split over reads and whatever follows it, body() is exactly the Content-Length bytes after the head; other methods have no body; no more than the body is asked for')
    T0 = T_()
    L = R('L', '\r\n:')
    B, B2, B3, E = (R(x, '', solid=False) for x in ('B', 'B2', 'B3', 'E'))
    n = 0
    for m in ('POST', 'PUT', 'PATCH'):
        for nm in ('Content-Length', 'content-length'):
            head = S(m, ' /', T0, ' HTTP/1.1\r\n', HOST, nm, ': ', L, '\r\n\r\n')
            for key, chunks, body in (('one', [S(head, B)], B), ('two', [head, (B, E)], B), ('split', [S(head, B), (B2, E)], S(B, B2)), ('three', [S(head, B), B2, (B3, E)], S(B, B2, B3)),
                                      ('two-three', [head, B, B2, (B3, E)], S(B, B2, B3)), ('more', [S(head, B, E)], B), ('later', [S(m, ' /', T0, ' HT'), S('TP/1.1\r\n', HOST, nm, ': ', L, '\r\n\r\n', B), (B2, E)], S(B, B2))):
                if nm != 'Content-Length' and key not in ('one', 'split'):
                    continue
                accepted(ck, f'{m}:{nm}:{key}', chunks, [('body', body)], ov=number(L, seg.length(body)), path=S('/', T0))
                n += 1
        accepted(ck, f'{m}:free', [S(m, ' /', T0, ' HTTP/1.1\r\n', HOST, *aside(), 'Content-Length: ', L, '\r\n\r\n', B, E)], [('body', B)], ov=number(L, seg.length(B)), path=S('/', T0))
        for e in ('\r\n', '\n'):
            hd = [m, ' /', T0, ' HTTP/1.1', e, 'Host: h', e, 'Content-Length: ', L, e]
            for key, chunks in (('ends', [S(*hd, e, B, E)]), ('ends-cut', [S(*hd), S(e, B, E)]), ('ends-cut-line', [S(*hd[:-1]), S(e, e, B, E)]), ('ends-mixed', [S(*hd[:-1], '\n\r\n', B, E)]),
                                *((('ends-cut-crlf', [S(*hd, '\r'), S('\n', B, E)]), ('ends-cut-line-crlf', [S(*hd[:-1], '\r'), S('\n\r\n', B, E)])) if e == '\r\n' else ())):
                accepted(ck, f'{m}:{key}', chunks, [('body', B)], ov=number(L, seg.length(B)), path=S('/', T0))
                n += 1
        for key, l in (('zero', ('Content-Length: 0\r\n',)), ('none', ()), ('none-free', aside())):
            accepted(ck, f'{m}:{key}', [S(m, ' /', T0, ' HTTP/1.1\r\n', HOST, *l, '\r\n'), (B, E)], [('body', T('seq'))], path=S('/', T0))
        accepted(ck, f'{m}:end', [S(m, ' /', T0, ' HTTP/1.1\r\n', HOST, 'Content-Length: -1\r\n\r\n', B), B2, B3], [('body', S(B, B2, B3))])
    for m in METHODS:
        if m in ('POST', 'PUT', 'PATCH'):
            continue
        accepted(ck, f'{m}:nobody', [S(m, ' /', T0, ' HTTP/1.1\r\n', HOST, 'Content-Length: ', L, '\r\n\r\n'), (B, E)], [('body', T('seq'))], ov=number(L, seg.length(B)))
    accepted(ck, 'once', [S('POST /', T0, ' HTTP/1.1\r\n', HOST, 'Content-Length: ', L, '\r\n\r\n', B)], [('body', B)], ov=number(L, seg.length(B)))
    ck.floor('body layouts', n, 27)


# ------------------------------------------------------------------ P26 / P27 / P23
def post(ct, body):
    L = R('L', '\r\n:')
    return [S('POST /f HTTP/1.1\r\n', HOST, 'Content-Type: ', ct, '\r\nContent-Length: ', L, '\r\n\r\n', body)], number(L, seg.length(body))


FORM = 'application/x-www-form-urlencoded'


def values(want):
    return lambda g, x: headers(want)(g, x)


def p26(ck):
    ck.rule('for url-encoded bodies of one, two and three pairs with any keys and values, form() and the value accessors return exactly the pairs, at any position, empty values and "=" in values included')
    K, V, K2, V2, V3 = (R(x, '=&', solid=False) for x in ('K', 'V', 'K2', 'V2', 'V3'))
    W = R('W', '&', solid=False)
    n = 0
    for key, body, want in (
            ('one', S(K, '=', V), {K: V}), ('const', S('a=', V), {Str('a'): V}), ('two', S('a=', V, '&b=', V2), {Str('a'): V, Str('b'): V2}),
            ('three', S('a=', V, '&b=', V2, '&c=', V3), {Str('a'): V, Str('b'): V2, Str('c'): V3}), ('empty-last', S('a=', V, '&b='), {Str('a'): V, Str('b'): Str('')}),
            ('empty-first', S('a=&b=', V), {Str('a'): Str(''), Str('b'): V}), ('empty-middle', S('a=', V, '&b=&c=', V2), {Str('a'): V, Str('b'): Str(''), Str('c'): V2}),
            ('eq', S('a=', V, '=', V2, '&b=', V3), {Str('a'): S(V, '=', V2), Str('b'): V3}), ('eq-last', S('b=', V, '&a=', V2, '=', V3), {Str('b'): V, Str('a'): S(V2, '=', V3)}),
            ('trailing', S('a=', V, '&'), {Str('a'): V}), ('repeat', S('a=', V, '&a=', V2), {Str('a'): V2}), ('amp-run', S(K, '=', W), {K: W}),
            ('repeat-empty', S('a=', V, '&a='), {Str('a'): Str('')}), ('empty-repeat', S('a=&b=', V, '&a=', V2), {Str('a'): V2, Str('b'): V}), ('repeat-mid', S('a=', V, '&a=&b=', V2), {Str('a'): Str(''), Str('b'): V2}),
            ('no-key', S('=', V), {Str(''): V}), ('no-key-first', S('=', V, '&b=', V2), {Str(''): V, Str('b'): V2}),
            ('no-key-last', S('a=', V, '&b=&=', V2), {Str('a'): V, Str('b'): Str(''), Str(''): V2})):
        ch, ov = post(FORM, body)
        names = [k for k in want]
        w = [('form', okay(values(want)))]
        for k in names:
            w += [AGAIN, ('form_value', k, okay(some(want[k]))), AGAIN, ('have_form_value', k, okay(TRUE))]
        if all(is_c(k) for k in names):
            w += [AGAIN, ('have_form_value', Str('zz'), okay(FALSE)), AGAIN, ('form_value', Str('zz'), okay(none))]
        accepted(ck, key, ch, w + [AGAIN, ('count_form_value', okay(lenis(len(want))))], ov=ov)
        n += 1
    ck.floor('url-encoded layouts', n, 18)


def mpart(*body, ct='multipart/form-data; boundary='):
    BD = R('BD', '\r\n ;:"=,')
    ch, ov = post(S(ct, BD), S(*body))
    return ch, ov


def p27(ck):
    ck.rule('for multipart bodies with any boundary, names, values and file contents, the form accessors return exactly the fields and files: names, values of one or more lines, file names, contents and sizes, in every order')
    BD = R('BD', '\r\n ;:"=,')
    NM, NM2, FN = R('NM', '\r\n";'), R('NM2', '\r\n";'), R('FN', '\r\n";')
    TY = R('TY', '\r\n')
    edge = [S('--', BD), S('--', BD, '--')]
    LN, LN2, LN3, LN4 = (R(x, '\n', solid=False, ne=edge, last='\r') for x in ('LN', 'LN2', 'LN3', 'LN4'))
    n = 0

    def filed(fn, content):
        return some(both(view(ck, 'http::values::FileHeader::filename', fn), view(ck, 'http::values::FileHeader::content', content),
                         view(ck, 'http::values::FileHeader::size', lambda g, x: x is seg.length(content) or same(g, x, seg.length(content)))))

    def case(key, body, fields, files):
        nonlocal n
        n += 1
        w = []
        for k, v in fields:
            w += [AGAIN, ('form_value', k, okay(some(v))), AGAIN, ('have_form_value', k, okay(TRUE)), ('form_value', k, okay(some(v)))]
        for k, fn, v in files:
            w += [AGAIN, ('form_file_value', k, okay(filed(fn, v))), ('form_file_value', k, okay(filed(fn, v)))]
        w += [AGAIN, ('count_form_value', okay(lenis(len(fields))))]
        if all(is_c(k) for k, *_ in fields + files):
            w += [AGAIN, ('form_file_value', Str('zz'), okay(none)), AGAIN, ('form_value', Str('zz'), okay(none))]
            w += [AGAIN, ('multipart_form', okay(lambda g, x: maplen(project(x, '0')) == len(files)))]
        ch, ov = mpart(*body)
        accepted(ck, key, ch, w, ov=ov, most=64 if 'typed' in key else 4)
    D = 'Content-Disposition: form-data; name="'
    for nm, e in (('crlf', '\r\n'), ('lf', '\n')):
        fld_ = lambda k, *v: ['--', BD, e, D, k, '"', e, e, *v, e]
        file_ = lambda k, f, *v, ct=('Content-Type: text/plain',): ['--', BD, e, D, k, '"; filename="', f, '"', e, *(list(ct) + [e] if ct else []), e, *v, e]
        end = ['--', BD, '--', e]
        case(nm + ':one', [*fld_(NM, LN), *end], [(NM, LN)], [])
        case(nm + ':two', [*fld_('a', LN), *fld_('b', LN2), *end], [(Str('a'), LN), (Str('b'), LN2)], [])
        case(nm + ':lines', [*fld_('a', LN, e, LN2), *end], [(Str('a'), S(LN, e, LN2))], [])
        case(nm + ':lines3', [*fld_('a', LN, e, LN2, e, LN3), *fld_('b', LN4), *end], [(Str('a'), S(LN, e, LN2, e, LN3)), (Str('b'), LN4)], [])
        case(nm + ':file', [*file_(NM, FN, LN), *end], [], [(NM, FN, LN)])
        case(nm + ':filelines', [*file_('f', FN, LN, e, LN2, e, LN3), *end], [], [(Str('f'), FN, S(LN, e, LN2, e, LN3))])
        case(nm + ':notype', [*file_('f', FN, LN, ct=()), *end], [], [(Str('f'), FN, LN)])
        if nm == 'crlf':
            case(nm + ':typed', [*file_('f', FN, LN, e, LN2, ct=('Content-Type: ', TY)), *fld_('a', LN3), *end], [(Str('a'), LN3)], [(Str('f'), FN, S(LN, e, LN2))])
        case(nm + ':both', [*fld_('a', LN), *file_('f', FN, LN2), *end], [(Str('a'), LN)], [(Str('f'), FN, LN2)])
        case(nm + ':file-first', [*file_('f', FN, LN), *fld_('a', LN2), *end], [(Str('a'), LN2)], [(Str('f'), FN, LN)])
        case(nm + ':mixed', [*fld_('a', LN), *file_('f', FN, LN2), *fld_('b', LN3), *file_('g', NM2, LN4), *end], [(Str('a'), LN), (Str('b'), LN3)], [(Str('f'), FN, LN2), (Str('g'), NM2, LN4)])
        case(nm + ':empty', [*fld_('a'), *fld_('b', LN), *end], [(Str('a'), Str('')), (Str('b'), LN)], [])
        case(nm + ':noend', [*fld_('a', LN), '--', BD, '--'], [(Str('a'), LN)], [])
        case(nm + ':repeat', [*fld_('a', LN), *fld_('a', LN2), *end], [(Str('a'), LN2)], [])
        case(nm + ':repeat-empty', [*fld_('a', LN), *fld_('a'), *end], [(Str('a'), Str(''))], [])
        case(nm + ':empty-repeat', [*fld_('a'), *fld_('a', LN), *end], [(Str('a'), LN)], [])
        case(nm + ':blank-line', [*fld_('a', e, LN), *end], [(Str('a'), S(e, LN))], [])
        case(nm + ':repeat3', [*fld_('a', LN), *fld_('b', LN2), *fld_('a', LN3), *end], [(Str('a'), LN3), (Str('b'), LN2)], [])
        case(nm + ':repeat-file', [*file_('f', FN, LN), *file_('f', NM2, LN2), *end], [], [(Str('f'), NM2, LN2)])
        case(nm + ':repeat-file-same', [*file_('f', FN, LN), *fld_('a', LN3), *file_('f', FN, LN2, ct=()), *end], [(Str('a'), LN3)], [(Str('f'), FN, LN2)])
        case(nm + ':files', [*file_('f', FN, LN), *file_('g', FN, LN2), *file_('h', NM2, LN), *end], [], [(Str('f'), FN, LN), (Str('g'), FN, LN2), (Str('h'), NM2, LN)])
        case(nm + ':one-name', [*fld_('a', LN), *file_('a', FN, LN2), *end], [(Str('a'), LN)], [(Str('a'), FN, LN2)])
        case(nm + ':empty-file', [*file_('f', FN), *end], [], [(Str('f'), FN, Str(''))])
        case(nm + ':no-filename', [*file_('f', '', LN), *end], [], [(Str('f'), Str(''), LN)])
    ck.floor('multipart layouts', n, 30)


def answered(code):
    """The accessor failed, and the peer got one complete error response by now"""
    return lambda g, x: g.I.variant_of(g.st, x) == 'Err' and error_in(wire.out(g.st), code) and wire.flushed(g.st) is wire.out(g.st)


def p27_bad(ck):
    ck.rule('a multipart body that does not start with the boundary, or has a part without a readable name, makes the accessor fail after exactly one 400')
    BD = R('BD', '\r\n ;:"=,')
    LN = R('LN5', '\n', solid=False, ne=[S('--', BD), S('--', BD, '--')], last='\r')
    X = R('XL', ' \t\r\n;"=', ne=[S('Content-Disposition: form-data')])
    Y = R('YL', '\r\n', ne=[S('--', BD), S('--', BD, '--')])
    D = 'Content-Disposition: form-data; name="'
    for acc, args in (('form', ()), ('multipart_form', ()), ('form_value', (Str('a'),)), ('have_form_value', (Str('a'),)), ('form_file_value', (Str('a'),)), ('count_form_value', ())):
        for key, body in (('boundary', [Y, '\r\n', D, 'a"\r\n\r\n', LN, '\r\n--', BD, '--\r\n']), ('disposition', ['--', BD, '\r\n', X, '; name="a"\r\n\r\n', LN, '\r\n--', BD, '--\r\n']),
                          ('noname', ['--', BD, '\r\nContent-Disposition: form-data\r\n\r\n', LN, '\r\n--', BD, '--\r\n']),
                          ('notname', ['--', BD, '\r\nContent-Disposition: form-data; ', X, '\r\n\r\n', LN, '\r\n--', BD, '--\r\n']),
                          ('notfile', ['--', BD, '\r\n', D, 'a"; ', X, '\r\n\r\n', LN, '\r\n--', BD, '--\r\n']),
                          ('second', ['--', BD, '\r\n', D, 'b"\r\n\r\n', LN, '\r\n--', BD, '\r\n', X, '\r\n\r\n', LN, '\r\n--', BD, '--\r\n']), ('empty', [''])):
            if acc != 'form' and key not in ('boundary', 'noname'):
                continue
            ch, ov = mpart(*body)
            accepted(ck, f'{acc}:{key}', ch, [(acc, *args, answered(400))], ov=ov)


# ------------------------------------------------------------------ P23
def p23(ck):
    ck.rule('whichever form accessor is used first, all of them agree afterwards and the body is gone; once the body was taken, forms are empty; without a form content type, forms are empty')
    BD = R('BD', '\r\n ;:"=,')
    V, V2 = R('V', '=&', solid=False), R('V2', '=&', solid=False)
    LN, LN2 = (R(x, '\n', solid=False, ne=[S('--', BD), S('--', BD, '--')], last='\r') for x in ('LN', 'LN2'))
    D = 'Content-Disposition: form-data; name="'
    url = post(FORM, S('a=', V, '&b=', V2))
    mul = mpart('--', BD, '\r\n', D, 'a"\r\n\r\n', LN, '\r\n--', BD, '\r\n', D, 'f"; filename="x"\r\n\r\n', LN2, '\r\n--', BD, '--\r\n')
    vals = {'url': {Str('a'): V, Str('b'): V2}, 'multi': {Str('a'): LN}}
    for key, (ch, ov) in (('url', url), ('multi', mul)):
        nf = 0 if key == 'url' else 1
        want = vals[key]
        nw = both(view(ck, 'http::values::FileHeader::filename', Str('x')), view(ck, 'http::values::FileHeader::content', LN2))
        calls = {'form': ('form', okay(values(want))), 'value': ('form_value', Str('a'), okay(some(want[Str('a')]))), 'no': ('form_value', Str('zz'), okay(none)), 'have': ('have_form_value', Str('a'), okay(TRUE)),
                 'count': ('count_form_value', okay(lenis(len(want)))), 'file': ('form_file_value', Str('f'), okay(some(nw) if nf else none)), 'multi': ('multipart_form', okay(lambda g, x, n=nf: maplen(project(x, '0')) == n))}
        empty = {'form': ('form', okay(values({}))), 'value': ('form_value', Str('a'), okay(none)), 'have': ('have_form_value', Str('a'), okay(FALSE)), 'count': ('count_form_value', okay(lenis(0))),
                 'file': ('form_file_value', Str('f'), okay(none)), 'multi': ('multipart_form', okay(lambda g, x: maplen(project(x, '0')) == 0))}
        w = []
        for a in calls:
            w += [AGAIN] + [calls[a], *calls.values(), ('body', T('seq')), calls[a], ('body', T('seq')), *calls.values()]
        accepted(ck, key + ':first', ch, w, ov=ov)
        whole = S('a=', V, '&b=', V2) if key == 'url' else S('--', BD, '\r\n', D, 'a"\r\n\r\n', LN, '\r\n--', BD, '\r\n', D, 'f"; filename="x"\r\n\r\n', LN2, '\r\n--', BD, '--\r\n')
        accepted(ck, key + ':body', ch, [('body', whole), *empty.values(), ('body', T('seq')), *empty.values(), AGAIN, ('body', whole), ('body', T('seq')), ('body', T('seq')), *empty.values()], ov=ov)
        ch, ov = post(FORM, S('')) if key == 'url' else mpart('')
        accepted(ck, key + ':nothing', ch, [('body', T('seq')), *empty.values(), ('body', T('seq')), *empty.values()], ov=ov)
        if key == 'url':
            accepted(ck, key + ':none', ch, [*empty.values(), ('body', T('seq')), *empty.values()], ov=ov)
    for ct in ('text/plain', 'application/json', 'application/octet-stream'):
        ch, ov = post(ct, S('a=', V))
        w = []
        for a in empty:
            w += [AGAIN, empty[a]]
        accepted(ck, 'other:' + ct, ch, w + [AGAIN, ('body', S('a=', V)), *empty.values(), AGAIN, *empty.values(), ('body', T('seq')), *empty.values()], ov=ov)
    L = R('L', '\r\n:')
    accepted(ck, 'none', [S('POST /f HTTP/1.1\r\n', HOST, 'Content-Length: ', L, '\r\n\r\n', V)], [empty['form'], AGAIN, empty['value'], AGAIN, empty['file']], ov=number(L, seg.length(V)))


PROPS = {'P22': [p22, p22_meaning], 'P25': p25, 'P26': p26, 'P27': [p27, p27_bad], 'P23': p23, 'P20': [p20_line, p20_head, p20_body], 'P21': [p21, p21_split]}
