"""What a handler learns about its request through the context: against the bytes that were sent."""
from ck import *
from ctxlib import *
from request import T_, HOST, hline, const, post, FORM, mpart, KNOWN, aside, decode, some, none, okay, both, view, lenis, values, headers, accepted, same

CK = 'http::header::cookie::Cookie'
CB = 'http::header::cookie::CookieBuilder'
UI = 'http::url::authority::userinfo::Userinfo'
FH = 'http::values::FileHeader'


def asks(ck, key, lines, want, chunks=None, ov=None, fields=None):
    """Every context made for an accepted request answers every question as wanted"""
    n = 0
    for g in explore(ck, chunks or [S('GET /', T_(), ' HTTP/1.1\r\n', *lines, '\r\n')], ov=ov):
        if not g.ok:
            continue
        for s0 in context(ck, g, fields=fields):
            for w in want:
                outs = do(ck, g.I, [s0], w[0], *w[1:-1])
                ck.ob(0 < len(outs) <= 4, f'{key}:{w[0]}:outcomes', ck.sp(f'{CTX}::{w[0]}'), f'{key}: {w[0]} has {len(outs)} outcomes')
                for s, v in outs:
                    n += 1
                    g.st = s
                    x = w[-1]
                    ck.ob(x(g, v) if callable(x) else same(g, v, x), f'{key}:{w[0]}', ck.sp(f'{CTX}::{w[0]}'),
                          f'{key}: {w[0]}({", ".join(map(repr, w[1:-1]))}) is {v!r}' + ('' if callable(x) else f' instead of {x!r}'))
    ck.ob(n > 0, key + ':any', ck.sp(CTX + '::new'), f'{key}: no accepted request')
    return len(want) if n else 0


def p29(ck):
    ck.rule('each request accessor of the context, for any texts, returns what was sent: headers, path, parameters, path parameters, client address, forms and files')
    T0 = T_()
    N, V, V2 = R('N', ':\r\n', ni=KNOWN), R('V', '\r\n'), R('V2', '\r\n')
    K, W, W2 = R('K', ' \r\n/?#&='), R('V', '\r\n'), R('V2', '\r\n')
    PV, PV2 = R('PV', ' \r\n/?#&='), R('PV2', ' \r\n/?#&=')
    n = asks(ck, 'header', [HOST, N, ': ', V, '\r\n'], [('req_header', headers({Str('Host'): Str('h'), N: V})), ('req_header_get', N, some(V)), ('req_header_get', Str('Host'), some(Str('h'))),
             ('req_path', S('/', T0)), ('req_client_addr', A('peer')), ('req_cookies', T('seq')), ('req_cookie_get', Str('a'), none), ('req_userinfo', none), ('req_count_param', Int(0)),
             ('req_param', Str('a'), none), ('req_have_param', Str('a'), FALSE)])
    n += asks(ck, 'no header', [HOST], [('req_header_get', Str('X-1'), none), ('req_header_get', Str('Cookie'), none)])
    tgt = lambda *t: [S('GET /', T0, *t, ' HTTP/1.1\r\n', HOST, '\r\n')]
    n += asks(ck, 'param', [], [('req_param', K, some(PV)), ('req_have_param', K, TRUE), ('req_count_param', lenis(1)), ('req_path', S('/', T0))], chunks=tgt('?', K, '=', PV))
    n += asks(ck, 'params', [], [('req_param', Str('a'), some(PV)), ('req_param', Str('b'), some(PV2)), ('req_param', Str('c'), some(Str('3'))), ('req_param', Str('d'), none), ('req_have_param', Str('b'), TRUE),
              ('req_have_param', Str('d'), FALSE), ('req_count_param', lenis(3))], chunks=tgt('?a=', PV, '&b=', PV2, '&c=3'))
    E = Str('')
    n += asks(ck, 'empty header', [HOST, N, ':\r\n'], [('req_header', headers({Str('Host'): Str('h'), N: E})), ('req_header_get', N, some(E))])
    n += asks(ck, 'empty param', [], [('req_param', K, some(E)), ('req_have_param', K, TRUE), ('req_count_param', lenis(1))], chunks=tgt('?', K, '='))
    n += asks(ck, 'empty params', [], [('req_param', Str('a'), some(E)), ('req_have_param', Str('a'), TRUE), ('req_param', Str('b'), some(PV)), ('req_have_param', Str('b'), TRUE), ('req_param', Str('c'), some(E)),
              ('req_have_param', Str('c'), TRUE), ('req_have_param', Str('d'), FALSE), ('req_have_param', E, FALSE), ('req_count_param', lenis(3))], chunks=tgt('?a=&b=', PV, '&c='))
    chE, ovE = post(FORM, S('f=&g=', PV))
    n += asks(ck, 'empty form', [], [('req_form', Str('f'), okay(some(E))), ('req_have_form', Str('f'), okay(TRUE)), ('req_have_form', Str('h'), okay(FALSE)), ('req_count_form', okay(lenis(2)))], chunks=chE, ov=ovE)
    chE, ovE = post(FORM, S('f=&g=', PV))
    n += asks(ck, 'empty form, existence first', [], [('req_have_form', Str('f'), okay(TRUE)), ('req_form', Str('f'), okay(some(E)))], chunks=chE, ov=ovE)
    F1, F2, FK = R('F1', '/'), R('F2', '/'), R('FK', '/')
    m0 = T('map0')
    n += asks(ck, 'no fields', [HOST], [('req_field', Str('a'), none), ('req_have_field', Str('a'), FALSE), ('req_count_fields', lenis(0))], fields=m0)
    n += asks(ck, 'field', [HOST], [('req_field', FK, some(F1)), ('req_have_field', FK, TRUE), ('req_count_fields', lenis(1))], fields=T('insert', m0, FK, F1))
    n += asks(ck, 'empty field', [HOST], [('req_field', FK, some(E)), ('req_have_field', FK, TRUE), ('req_count_fields', lenis(1))], fields=T('insert', m0, FK, E))
    n += asks(ck, 'fields', [HOST], [('req_field', Str('a'), some(F1)), ('req_field', Str('b'), some(F2)), ('req_field', Str('c'), none), ('req_have_field', Str('b'), TRUE), ('req_have_field', Str('c'), FALSE),
              ('req_count_fields', lenis(2))], fields=T('insert', T('insert', m0, Str('a'), F1), Str('b'), F2))
    # fields, parameters, headers and forms are different things
    X, Y = R('FX', '=&\r\n'), R('FY', '=&')
    ch, ov = post(FORM, S('f=', Y))
    ch = [S('POST /q?p=', PV, ' HTTP/1.1\r\n', HOST, 'h: ', V, '\r\nContent-Type: ', FORM, '\r\nContent-Length: ', R('L', '\r\n:'), '\r\n\r\nf=', Y)]
    want = []
    for nm, v in (('f', 'req_form'), ('p', 'req_param'), ('h', 'req_header_get'), ('d', 'req_field')):
        for q, val in (('req_form', Y), ('req_param', PV), ('req_header_get', V), ('req_field', F1)):
            hit = some(val) if q == v else none
            want.append((q, Str(nm), okay(hit) if q == 'req_form' else hit))
        for q, of in (('req_have_form', 'req_form'), ('req_have_param', 'req_param'), ('req_have_field', 'req_field')):
            b = Bool(of == v)
            want.append((q, Str(nm), okay(b) if q == 'req_have_form' else b))
    n += asks(ck, 'apart', [], want + [('req_count_form', okay(lenis(1))), ('req_count_param', lenis(1)), ('req_count_fields', lenis(1)), ('req_form_file', Str('f'), okay(none))], chunks=ch, ov=ov, fields=T('insert', m0, Str('d'), F1))
    BD = R('BD', '\r\n ;:"=,')
    LN, LN2 = (R(x, '\n', solid=False, ne=[S('--', BD), S('--', BD, '--')], last='\r') for x in ('LN', 'LN2'))
    FN = R('FN', '\r\n";')
    D = 'Content-Disposition: form-data; name="'
    ch, ov = mpart('--', BD, '\r\n', D, 'a"\r\n\r\n', LN, '\r\n--', BD, '\r\n', D, 'f"; filename="', FN, '"\r\n\r\n', LN2, '\r\n--', BD, '--\r\n')
    filed = some(both(view(ck, f'{FH}::filename', FN), view(ck, f'{FH}::content', LN2)))
    n += asks(ck, 'files', [], [('req_form', Str('a'), okay(some(LN))), ('req_have_form', Str('a'), okay(TRUE)), ('req_have_form', Str('f'), okay(FALSE)), ('req_count_form', okay(lenis(1))), ('req_form_file', Str('f'), okay(filed)),
              ('req_form_file', Str('a'), okay(none))], chunks=ch, ov=ov)
    ck.floor('questions asked', n, 80)


# ------------------------------------------------------------------ P24
def p24(ck):
    ck.rule('a request is a websocket handshake exactly if Connection lists upgrade and Upgrade is websocket, in any letter case, whatever else Connection lists and wherever the two lines stand')
    V = R('V', '\r\n')
    n = 0

    def case(key, lines, yes):
        nonlocal n
        n += asks(ck, key, [HOST, *lines], [('req_is_web_socket', Bool(yes))])
    for a, b in (('connection', 'upgrade'), ('CONNECTION', 'UPGRADE'), ('Connection', 'upgrade'), ('cONNECTION', 'Upgrade')):
        case(f'yes:name:{a}:{b}', [f'{a}: Upgrade\r\n{b}: websocket\r\n'], True)
    for up in ('websocket', 'WebSocket', 'WEBSOCKET', 'Websocket'):
        for co in ('Upgrade', 'upgrade', 'UPGRADE', 'keep-alive, Upgrade', 'Upgrade, keep-alive', 'keep-alive,Upgrade', 'keep-alive ,upgrade , x', 'Upgrade,Upgrade'):
            case(f'yes:{co}:{up}', [f'Connection: {co}\r\nUpgrade: {up}\r\n'], True)
            case(f'yes:{up}:{co}:late', [f'Upgrade: {up}\r\nX-1: ', V, f'\r\nConnection: {co}\r\n'], True)
    for co in ('keep-alive', 'close', 'Upgrades', 'x-upgrade', 'up grade', '', 'keep-alive, close', 'keep-alive; Upgrade', 'Upgrade-Insecure'):
        case('no:connection:' + co, [f'Connection: {co}\r\nUpgrade: websocket\r\n'], False)
    for up in ('h2c', 'websockets', 'web-socket', '', 'websocket, h2c', 'x websocket', 'TLS/1.0'):
        case('no:upgrade:' + up, [f'Connection: Upgrade\r\nUpgrade: {up}\r\n'], False)
    case('no:only-connection', ['Connection: Upgrade\r\n'], False)
    case('no:only-upgrade', ['Upgrade: websocket\r\n'], False)
    case('no:neither', [], False)
    for key, lines, yes in (('connection', ['Connection: Upgrade\r\n'], False), ('upgrade', ['Upgrade: websocket\r\n'], False), ('neither', [], False), ('both', ['Connection: Upgrade\r\nUpgrade: websocket\r\n'], True),
                            ('h2c', ['Connection: Upgrade\r\nUpgrade: h2c\r\n'], False), ('keep', ['Connection: keep-alive\r\nUpgrade: websocket\r\n'], False)):
        case(f'free:{key}', [*lines, *aside()], yes)
    case('no:other', ['X-Connection: Upgrade\r\nX-Upgrade: websocket\r\n'], False)
    O = R('O', ',\r\n', ni=['upgrade'])
    C = R('Co', ',\r\n')
    case('yes:any', ['Connection: ', C, ', Upgrade\r\nUpgrade: websocket\r\n'], True)
    case('yes:any-first', ['Connection: Upgrade, ', C, '\r\nUpgrade: websocket\r\n'], True)
    case('no:any', ['Connection: ', O, '\r\nUpgrade: websocket\r\n'], False)
    case('no:any2', ['Connection: ', O, ', ', O, '\r\nUpgrade: websocket\r\n'], False)
    U = R('Up', '\r\n', ni=['websocket'])
    case('no:any-upgrade', ['Connection: Upgrade\r\nUpgrade: ', U, '\r\n'], False)
    ck.floor('handshake forms', n, 88)


# ------------------------------------------------------------------ P46
def p46(ck):
    ck.rule('Basic credentials: for any user and password text (a colon only in the password) the user info is exactly these; no Authorization gives none; the client sends the encoding of exactly user:password')
    D = R('D', '\r\n ')
    U, P, P2 = R('Us', ':'), R('Pw', ':', solid=False), R('Pw2', '', solid=False)
    n = 0
    for key, dec, u, p in (('plain', S(U, ':', P), U, P), ('nopass', S(U, ':'), U, Str('')), ('colons', S(U, ':', P, ':', P2), U, S(P, ':', P2)), ('colon', S(U, '::'), U, Str(':')), ('const', S('user:', P2), Str('user'), P2)):
        for nm in ('Authorization', 'authorization'):
            n += asks(ck, f'{key}:{nm}', [HOST, f'{nm}: Basic ', D, '\r\n'], [('req_userinfo', some(both(view(ck, f'{UI}::username', u), view(ck, f'{UI}::password', p))))],
                      ov=decode(ck, lambda I, st, c, dec=dec: [(st, wire.okv(dec))] if I.strip(st, c.args[0]) is D else [(st, wire.errv(T('bad64')))]))
    n += asks(ck, 'none', [HOST], [('req_userinfo', none)])
    asks(ck, 'none-free', [HOST, *aside()], [('req_userinfo', none)])
    enc = [x for x in ck.p.raw_fns if x.endswith('::encode') and 'base64' in x.lower()]
    if not enc:
        raise Anchor('no base64 encoder in the tree')
    for u in (U, Str('a')):
        for p in (P, P2, Str('')):
            h = lambda I, st, c: [(st, T('b64', I.strip(st, c.args[0])))]
            ps = ck.run(f'{UI}::base64', [T('ref', ('X', 'ui'), ())], segs=True, nojoin=True, overrides={x: h for x in enc}, st=made(ck, u, p))
            for q in ps:
                n += 1
                v = deep(q.I, q.st, q.ret)
                ck.ob(v.op == 'b64' and v.a[0] is S(u, ':', p), 'encode', ck.sp(f'{UI}::base64'), f'credentials of {u!r} and {p!r} are sent as {v!r}')
    ck.floor('credentials', n, 17)


def made(ck, u, p):
    I = absint.Interp(ck.p, models.M)
    I.segmode = True
    st = absint.State({}, {}, absint.NIL)
    (s, v), = I.entry(ck.fn(f'{UI}::new'), [u, p], st)
    s.store[('X', 'ui')] = v
    return s


# ------------------------------------------------------------------ P44
def cookie(ck, n, v):
    I = absint.Interp(ck.p, models.M)
    I.segmode = True
    (s, x), = I.entry(ck.fn(f'{CK}::new'), [n, v], absint.State({}, {}, absint.NIL))
    return deep(I, s, x)


def seqof(*vs):
    """The value is a sequence of exactly these"""
    def f(g, x):
        x = g.I.strip(g.st, x)
        return x.op == 'seq' and len(x.a) == len(vs) and all(same(g, a, b) for a, b in zip(x.a, vs))
    return f


def p44(ck):
    ck.rule('for one, two and three cookies with any names and values (empty, with "=", with any spacing between them), the cookies of the request are exactly these in order, and the one found by name is the first of that name')
    N = R('Cn', '=; \t\r\n')
    V, V2, V3 = (R(x, '; \t\r\n') for x in ('Cv', 'Cv2', 'Cv3'))
    A1, B1 = R('Cva', '=; \t\r\n'), R('Cvb', '; \t\r\n')
    ab = {k: cookie(ck, Str(k), v) for k, v in (('a', V), ('b', V2), ('c', V3))}
    n = 0

    def case(key, text, cs, more=()):
        nonlocal n
        for nm in ('Cookie', 'cookie'):
            n += asks(ck, f'{key}:{nm}', [HOST, f'{nm}: ', *text, '\r\n'], [('req_cookies', seqof(*cs)), *more])
    case('one', [N, '=', V], [cookie(ck, N, V)], [('req_cookie_get', N, some(cookie(ck, N, V)))])
    case('two', ['a=', V, '; b=', V2], [ab['a'], ab['b']], [('req_cookie_get', Str('a'), some(ab['a'])), ('req_cookie_get', Str('b'), some(ab['b'])), ('req_cookie_get', Str('c'), none)])
    case('three', ['a=', V, '; b=', V2, '; c=', V3], [ab['a'], ab['b'], ab['c']], [('req_cookie_get', Str('b'), some(ab['b'])), ('req_cookie_get', Str('c'), some(ab['c']))])
    case('tight', ['a=', V, ';b=', V2, ';c=', V3], [ab['a'], ab['b'], ab['c']])
    case('wide', ['a=', V, ';   b=', V2, ' ; c=', V3], [ab['a'], ab['b'], ab['c']])
    case('empty', ['a=; b=', V2], [cookie(ck, Str('a'), Str('')), ab['b']], [('req_cookie_get', Str('a'), some(cookie(ck, Str('a'), Str(''))))])
    case('empty-last', ['b=', V2, '; a='], [ab['b'], cookie(ck, Str('a'), Str(''))])
    case('equals', ['a=', A1, '=', B1, '; b=', V2], [cookie(ck, Str('a'), S(A1, '=', B1)), ab['b']])
    case('repeat', ['a=', V, '; a=', V2, '; b=', V2], [ab['a'], cookie(ck, Str('a'), V2), ab['b']], [('req_cookie_get', Str('a'), some(ab['a']))])
    case('names', ['ab=', V, '; A=', V2, '; a=', V3], [cookie(ck, Str('ab'), V), cookie(ck, Str('A'), V2), cookie(ck, Str('a'), V3)],
         [('req_cookie_get', Str('a'), some(cookie(ck, Str('a'), V3))), ('req_cookie_get', Str('A'), some(cookie(ck, Str('A'), V2))), ('req_cookie_get', Str('b'), none)])
    n += asks(ck, 'none', [HOST], [('req_cookies', seqof()), ('req_cookie_get', Str('a'), none)])
    asks(ck, 'none-free', [HOST, *aside()], [('req_cookies', seqof()), ('req_cookie_get', Str('a'), none)])
    asks(ck, 'free', [HOST, 'Cookie: a=', V, '\r\n', *aside()], [('req_cookies', seqof(ab['a']))])
    ck.floor('cookie questions', n, 34)


ATTRS = {'path': 'Path=', 'domain': 'Domain=', 'max_age': 'Max-Age=', 'secure': 'Secure', 'httponly': 'HttpOnly', 'same_site': 'SameSite=', 'expires': 'Expires='}
NONE_ = T('agg', 'std::option::Option', 'None', (), ())
FMT = '%a, %d %b %Y %H:%M:%S GMT'


def p44_set(ck):
    ck.rule('a cookie set on the response is sent as one Set-Cookie line with its name, its value and exactly the attributes it was built with, in the order the cookies were added; read back it is the same cookie')
    N, V = R('Sn', '=; \t\r\n'), R('Sv', '; \t\r\n')
    P, D = R('Sp', '; \t\r\n'), R('Sd', '; \t\r\n')
    site = lambda v: T('agg', 'http::header::cookie::SameSite', v, (), ())
    E = T('agg', 'utils::time::Time', '', ('duration',), (T('dur'),))
    NOW = T('agg', 'utils::time::Time', '', ('duration',), (T('nowdur'),))
    X = R('Sx', ';\r\n')
    one = [('path', Str(''), Str('Path=')), ('domain', Str(''), Str('Domain=')), ('path', P, S('Path=', P)), ('domain', D, S('Domain=', D)), ('secure', TRUE, Str('Secure')), ('httponly', TRUE, Str('HttpOnly')), ('max_age', Int(0), Str('Max-Age=0')), ('max_age', Int(100), Str('Max-Age=100')),
           ('max_age', Int(-1), Str('Max-Age=-1')), ('same_site', site('Strict'), Str('SameSite=Strict')), ('same_site', site('Lax'), Str('SameSite=Lax')), ('same_site', site('None'), Str('SameSite=None')),
           ('expires', E, S('Expires=', X)), ('secure', FALSE, None), ('httponly', FALSE, None)]
    sets = [()] + [(x,) for x in one] + [(a, b) for a in one for b in one if a[0] < b[0]] + [tuple(x for x in one[2:] if x[0] in ks and x[1] is not FALSE) for ks in (('path', 'domain', 'secure', 'httponly', 'expires'),)]
    one = one[2:]
    sets.append(tuple(one[i] for i in (0, 1, 2, 3, 5, 7, 10)))
    sets.append(tuple(one[i] for i in (10, 9, 6, 3, 2, 1, 0)))
    w = ck.sp(f'<{CK} as std::string::ToString>::to_string')
    n = back = 0

    def fmt(I, st, c):
        f = I.strip(st, c.args[1])
        t = deep(I, st, c.args[0])
        return [(st, X if is_c(f, 'str') and f.a[1] == FMT and holds(t, T('dur')) else R('Sbad', ';\r\n'))]
    ov = {'utils::time::Time::format_string': fmt, 'utils::time::Time::now': lambda I, st, c: [(st, NOW)]}

    def hread(I, st, c):
        return [(st, wire.okv(E))] if I.strip(st, c.args[0]) is X and I.strip(st, c.args[1]) is Str(FMT) else [(st, wire.errv(T('badtime')))]
    ov['utils::time::Time::parse_from_str'] = hread
    I = absint.Interp(ck.p, models.M)
    I.segmode = True
    I.overrides = dict(I.overrides or {}, **ov)
    (s0, b), = I.entry(ck.fn(f'{CB}::new'), [], absint.State({}, {}, absint.NIL))
    s0.store[('X', 'cb')] = b
    BR = T('ref', ('X', 'cb'), ())
    for nv, val in ((V, V), (Str(''), Str(''))):
        for at in sets:
            sts = [s for s, _ in I.entry(ck.fn(f'{CB}::name_value'), [BR, N, nv], s0.copy())]
            for a, v, _ in at:
                sts = [s2 for s in sts for s2, _ in I.entry(ck.fn(f'{CB}::{a}'), [BR, v], s)]
            for s in sts:
                for s2, c in I.entry(ck.fn(f'{CB}::build'), [BR], s):
                    s2.store[('X', 'ck')] = c
                    for s3, t in I.entry(ck.fn(f'<{CK} as std::string::ToString>::to_string'), [T('ref', ('X', 'ck'), ())], s2):
                        n += 1
                        t = deep(I, s3, t)
                        got = pieces(t)
                        want = [x for *_, x in at if x is not None]
                        key = 'set:' + '+'.join(a for a, *_ in at)
                        ck.ob(got is not None and got[:1] == [S(N, '=', val)], key + ':value', w, f'{key}: a cookie {N!r}={val!r} is sent as {t!r}')
                        ck.ob(got is not None and sorted(map(repr, got[1:])) == sorted(map(repr, want)), key + ':attributes', w, f'{key}: the attributes sent are {t!r} instead of {want!r}')
                        # read back
                        for s4, r in I.entry(ck.fn(f'{CK}::read_set_cookies'), [some_value(T('seq', t))], s3):
                            back += 1
                            r = deep(I, s4, r)
                            l = project(project(r, ('as', 'Ok')), '0')
                            ck.ob(I.variant_of(s4, r) == 'Ok' and l.op == 'seq' and len(l.a) == 1 and equiv(I, s4, deep(I, s4, l.a[0]), deep(I, s2, c)), key + ':back', ck.sp(f'{CK}::read_set_cookies'),
                                  f'{key}: {t!r} is read back as {r!r}')
    # attributes that are not known are ignored, names of known ones are in any letter case
    plain = lambda **k: {'path': NONE_, 'domain': NONE_, 'max_age': NONE_, 'secure': FALSE, 'httponly': FALSE, 'expires': NONE_, 'same_site': NONE_, **k}
    for key, text, want in (('unknown', [N, '=', V, '; Foo=', P, '; Path=', D], dict(path=some_value(D))), ('unknown-flag', [N, '=', V, '; Partitioned; secure'], dict(secure=TRUE)),
                            ('lower', [N, '=', V, '; path=', P, '; domain=', D, '; max-age=7; httponly; samesite=lax'], dict(path=some_value(P), domain=some_value(D), max_age=some_value(Int(7)), httponly=TRUE, same_site=some_value(site('Lax')))),
                            ('upper', [N, '=', V, ';PATH=', P, ';SECURE;HTTPONLY;SAMESITE=STRICT'], dict(path=some_value(P), secure=TRUE, httponly=TRUE, same_site=some_value(site('Strict')))),
                            *(('named:' + a, [a, '=', V, '; path=', P], dict(name=Str(a), path=some_value(P))) for a in ('path', 'Domain', 'expires', 'max-age', 'Max-Age', 'secure', 'HttpOnly', 'samesite'))):
        for s4, r in I.entry(ck.fn(f'{CK}::read_set_cookies'), [some_value(T('seq', S(*text)))], s0.copy()):
            r = deep(I, s4, r)
            l = project(project(r, ('as', 'Ok')), '0')
            ok = I.variant_of(s4, r) == 'Ok' and l.op == 'seq' and len(l.a) == 1
            c = deep(I, s4, l.a[0]) if ok else None
            ck.ob(ok and all(equiv(I, s4, project(c, k), v) for k, v in plain(**{'name': N, 'value': V, **want}).items()), 'read:' + key, ck.sp(f'{CK}::read_set_cookies'), f'{S(*text)!r} is read as {r!r}')
    ck.floor('cookies built', n, 100)
    ck.floor('cookies read back', back, 100)


def some_value(v):
    return T('agg', 'std::option::Option', 'Some', ('0',), (v,))


def pieces(t):
    """Pieces of the text between '; '"""
    ts = seg.toks(t)
    if ts is None:
        return None
    out, cur = [], []
    i = 0
    while i < len(ts):
        if ts[i] == ';' and ts[i + 1:i + 2] in ([' '], (' ',)):
            out.append(seg.untoks(cur))
            cur = []
            i += 2
            continue
        cur.append(ts[i])
        i += 1
    return out + [seg.untoks(cur)]


def p44_wire(ck):
    ck.rule('each cookie added to the response is one Set-Cookie line, in order')
    from response import sent, base
    N, V, V2 = R('Sn', '=; \t\r\n'), R('Sv', '; \t\r\n'), R('Sv2', '; \t\r\n')
    c1, c2 = cookie(ck, N, V), cookie(ck, Str('b'), V2)
    ok = 'HTTP/1.1 200 OK'
    sent(ck, 'wire:one', [], [('resp_add_cookie', c1)], ok, base(Set_Cookie=[S(N, '=', V)]), '')
    sent(ck, 'wire:two', [], [('resp_add_cookie', c1), ('resp_add_cookie', c2)], ok, base(Set_Cookie=[S(N, '=', V), S('b=', V2)]), '')
    sent(ck, 'wire:body', [], [('resp_add_cookie', c2), ('resp_body', Str('x')), ('resp_add_cookie', c1)], ok, base(Str('x'), Set_Cookie=[S('b=', V2), S(N, '=', V)]), 'x')


PROPS = {'P29': p29, 'P24': p24, 'P46': p46, 'P44': [p44, p44_set, p44_wire]}
