"""The client: what is sent for a url, to whom, and what becomes of the answer."""
from itertools import permutations

from ck import *
from reqlib import *
from ctxlib import Msg
from request import const, headers, KNOWN
import wire

GET = 'client::client::HttpClient::get'
RESP = 'http::response::Response'
A6, A4, B4 = T('addr6'), T('addr4'), T('addr4b')
CONN, WHO = ('X', 'connected'), ('X', 'asked')


class Net:
    """The peer and the name service as abstract values: addresses a name has, whether the connection succeeds, what comes back"""

    def __init__(self, chunks, addrs=(A4,), connect=True, resolve=True, fail=False, wfail=False):
        self.w = wire.Wire(chunks, fail)
        self.addrs, self.connect_, self.resolve_, self.wfail = addrs, connect, resolve, wfail

    def resolve(self, I, st, c):
        st = st.copy()
        v = I.strip(st, c.args[0])
        v = deep(I, st, v)
        if v.op == 'tup' and len(v.a) == 2:
            v = S(I.strip(st, v.a[0]), ':', wire.num(I.strip(st, v.a[1])))  # a pair of name and port asks for the same
        st.store[WHO] = T('seq', *(st.store.get(WHO, T('seq')).a), v)
        if not self.resolve_:
            return [(st, wire.errv(T('ioerr', 'resolve')))]
        return [(st, wire.okv(T('iter', 'val', T('seq', *self.addrs), Int(0))))]

    def connect(self, I, st, c):
        st = st.copy()
        st.store[CONN] = T('seq', *(st.store.get(CONN, T('seq')).a), I.strip(st, c.args[-1]) if c.path.endswith('connect') else I.strip(st, c.args[0]))
        return [(st, wire.okv(T('conn')) if self.connect_ else wire.errv(T('ioerr', 'connect')))]

    def overrides(self):
        o = self.w.overrides()
        o.update({'std::net::TcpStream::connect': self.connect, 'std::net::TcpStream::connect_timeout': self.connect, 'std::net::ToSocketAddrs::to_socket_addrs': self.resolve,
                  'std::net::SocketAddr::is_ipv4': lambda I, st, c: [(st, Bool(I.strip(st, c.args[0]) in (A4, B4)))],
                  'std::net::SocketAddr::is_ipv6': lambda I, st, c: [(st, Bool(I.strip(st, c.args[0]) is A6))]})
        if self.wfail:
            o.update(wire.failing(self.w, lambda I, st, c: [(st, wire.errv(T('ioerr', 'write')))]))
        return o


class Reply:
    def __init__(self, ck, p):
        self.ck, self.p, self.I, self.st = ck, p, p.I, p.st
        self.ret = deep(p.I, p.st, p.ret)
        self.ok = p.I.variant_of(p.st, p.ret) == 'Ok'
        self.out, self.sent = wire.out(p.st), wire.flushed(p.st)
        self.conns = list(p.st.store.get(CONN, T('seq')).a)
        self.asked = list(p.st.store.get(WHO, T('seq')).a)
        if self.ok:
            self.st = p.st.copy()
            self.st.store[('X', 'resp')] = p.I.strip(p.st, project(project(p.ret, ('as', 'Ok')), '0'))
            self.resp = deep(self.I, self.st, self.st.store[('X', 'resp')])

    def body(self):
        vs = {deep(self.I, s, v) for s, v in self.I.entry(self.ck.fn(f'{RESP}::body'), [T('ref', ('X', 'resp'), ())], self.st.copy())}
        return vs.pop() if len(vs) == 1 else T('many', *vs)


def get(ck, url, chunks, **net):
    more = net.pop('ov', None) or {}
    ov = Net(chunks, **net).overrides()
    ov.update(more)
    rs = [Reply(ck, p) for p in ck.run(GET, [url], segs=True, nojoin=True, overrides=ov)]
    ck.ob(bool(rs), 'outcome', ck.sp(GET), f'{url!r}: no outcome')
    return rs



OK200 = 'HTTP/1.1 200 OK\r\n'


def ports(D, n):
    def h(I, st, c):
        return [(st, wire.okv(n))] if I.strip(st, c.args[0]) is D else NotImplemented
    return {'core::str::<impl str>::parse': h}


def host_port(h, port):
    return S(h, ':', str(port) if isinstance(port, int) else wire.num(port))


# ------------------------------------------------------------------ P50
def p50(ck):
    ck.rule('for urls with and without user info, port, path, query and fragment, and any texts for each, the bytes sent are exactly one flushed GET request for the path and query (never the fragment), with the host and exactly the given credentials')
    P, K, V, F, V2 = (R(x, '/?=&#\r\n ') for x in ('Pp', 'Kk', 'Vv', 'Ff', 'Vv2'))
    H, D, U, W = R('Hh', ':@/?#\r\n ', first='h'), R('Dp', ':@/?#'), R('Uu', ':@/?#', first='u'), R('Wp', ':@/?#')
    enc = [x for x in ck.p.raw_fns if x.endswith('::encode') and 'base64' in x.lower()]
    if not enc:
        raise Anchor('no base64 encoder in the tree')
    B64 = R('Cred', '\r\n:')
    seen = []

    def coded(I, st, c):
        v = I.strip(st, c.args[0])
        seen.append(v)
        return [(st, B64 if v in (S(U, ':', W), S('user:', W)) else Str('?'))]
    w = ck.sp(GET)
    n = 0
    pn = Int(8080)
    for host in (H, Str('localhost'), Str('h')):
        for user in (None, U, Str('user')):
            for port in (None, pn):
                for loc, target in ((('/',), S('/')), (('/', P), S('/', P)), (('/', P, '/', F), S('/', P, '/', F)), (('/', P, '?', K, '=', V), S('/', P, '?', K, '=', V)),
                                    (('/', P, '#', F), S('/', P)), (('/', P, '?a=', V, '#', F), S('/', P, '?a=', V)), (('/?', K, '=', V), S('/?', K, '=', V)), ((), S('/'))):
                    if user is not None and not loc or host is not H and len(loc) > 2:
                        continue
                    url = S('http://', *((user, ':', W, '@') if user is not None else ()), host, *((':', D) if port is not None else ()), *loc)
                    key = ('user' if user is not None else '') + ('port' if port is not None else '') + str(len(loc))
                    gs = get(ck, url, [S(OK200, '\r\n')], ov={**ports(D, pn), **{x: coded for x in enc}})
                    n += bool(gs)
                    for g in gs:
                        m = Msg(g.out)
                        if not ck.ob(g.ok and m.ok, key + ':form', w, f'{url!r}: what is sent is not one HTTP request: {g.out!r}'):
                            continue
                        ck.ob(g.sent is g.out, key + ':flush', w, f'{url!r}: what is sent is not flushed')
                        ck.ob(m.start in (S('GET ', target, ' HTTP/1.0'), S('GET ', target, ' HTTP/1.1')), key + ':line', w, f'{url!r}: the request line is {m.start!r}')
                        ck.ob(m.of('Host') == [host_port(host, 80 if port is None else port)], key + ':host', w, f'{url!r}: Host is {m.of("Host")!r}')
                        auth = m.of('Authorization')
                        ck.ob(auth == ([S('Basic ', B64)] if user is not None else []), key + ':auth', w, f'{url!r}: Authorization is {auth!r} (credentials encoded: {seen[-1:]!r})')
                        ck.ob(not m.of('Connection') or m.of('Connection') == [Str('close')], key + ':connection', w, f'{url!r}: the response is read to the end of the stream, but Connection is {m.of("Connection")!r}')
                        ck.ob(is_c(m.body, 'str') and m.body.a[1] == '' and not m.of('Content-Length') and not m.of('Transfer-Encoding'), key + ':body', w, f'{url!r}: a GET request is sent with a body: {g.out!r}')
                        ck.ob(len(m.headers) == 1 + len(auth) + len(m.of('Connection')), key + ':extra', w, f'{url!r}: headers that were not asked for: {m.headers!r}')
    # several parameters, in any order
    E = Str('')
    for url, pairs in ((S('http://h/', P, '?a=', V, '&b=', V2), [('a', V), ('b', V2)]), (S('http://h/', P, '?a=', V, '&b=', V2, '&c=', K, '#', F), [('a', V), ('b', V2), ('c', K)]),
                       *((S('http://h/', P, '?', *t), [('a', x), ('b', y), *z]) for x, y, z, t in (
                           (E, V, [], ('a=&b=', V)), (V, E, [], ('a=', V, '&b=')), (E, E, [], ('a=&b=',)), (V, E, [('c', V2)], ('a=', V, '&b=&c=', V2)), (E, E, [('c', V2)], ('a=&b=&c=', V2)), (V, V2, [('c', E)], ('a=', V, '&b=', V2, '&c=')))),
                       (S('http://h/', P, '?a='), [('a', E)]), (S('http://h/', P, '?a=#', F), [('a', E)]), (S('http://h/', P, '?a=&b=#', F), [('a', E), ('b', E)])):
        for g in get(ck, url, [S(OK200, '\r\n')]):
            n += 1
            m = Msg(g.out)
            perms = [S('GET /', P, *[x for i, k in enumerate(o) for x in ('?' if i == 0 else '&', k[0], '=', k[1])], f' HTTP/1.{v}') for o in permutations(pairs) for v in (0, 1)]
            ck.ob(m.ok and m.start in perms, f'params:{len(pairs)}', w, f'{url!r} is requested as {g.out!r}')
    ck.floor('urls requested', n, 70)


# ------------------------------------------------------------------ P51
def p51(ck):
    ck.rule('the client connects once, to the first IPv4 address of exactly the host and port of the url, and every failure (url, name without an IPv4 address, connect, write, read, an empty answer) is returned as an error')
    P = R('Pp', '/?=&#\r\n ')
    H, D = R('Hh', ':@/?#\r\n ', first='h'), R('Dp', ':@/?#')
    pn = Int(8080)
    w = ck.sp(GET)
    n = 0
    for sc, dport in (('http://', 80), ('', 80)):
        for host in (H, Str('localhost')):
            for port in (None, pn):
                url = S(sc, host, *((':', D) if port is not None else ()), '/', P)
                want = host_port(host, dport if port is None else port)
                for addrs, to in (((A4,), A4), ((A6, A4), A4), ((A4, A6), A4), ((A6, A4, B4), A4), ((B4, A4), B4)):
                    gs = get(ck, url, [S(OK200, '\r\n')], addrs=addrs, ov=ports(D, pn))
                    for g in gs:
                        n += 1
                        ck.ob(g.ok, 'ok', w, f'{url!r}: an answered request fails: {g.ret!r}')
                        ck.ob(g.asked == [want], 'name', w, f'{url!r}: the names looked up are {g.asked!r} instead of {want!r}')
                        ck.ob(g.conns == [to], 'address', w, f'{url!r} at {addrs!r}: connected to {g.conns!r} instead of {to!r}')
    url = S('http://', H, '/', P)
    for key, kw, nconn in (('no-address', dict(addrs=()), 0), ('only-ipv6', dict(addrs=(A6,)), 0), ('resolve', dict(resolve=False), 0), ('connect', dict(connect=False), 1), ('write', dict(wfail=True), 1), ('read', dict(fail=True), 1)):
        for g in get(ck, url, [S(OK200, '\r\n')], **kw):
            n += 1
            ck.ob(not g.ok, 'fails:' + key, w, f'{key} fails, but the request returns {g.ret!r}')
            ck.ob(len(g.conns) == nconn, 'conns:' + key, w, f'{key} fails: {len(g.conns)} connections')
    Bd = R('Bdy')
    for key, part in (('line', S('HTTP/1.1 200')), ('headers', S(OK200, 'A: b\r\n')), ('body', S(OK200, 'A: b\r\n\r\n', Bd)), ('whole', S(OK200, '\r\n'))):
        for g in get(ck, url, [part], fail=True):
            n += 1
            ck.ob(not g.ok, 'fails:read:' + key, w, f'reading fails after {part!r}, but the request returns {g.ret!r}')
    for g in get(ck, url, []):
        n += 1
        ck.ob(not g.ok, 'fails:empty', w, f'a peer that answers nothing: the request returns {g.ret!r}')
    for g in get(ck, S('ftp://', H, '/', P), [S(OK200, '\r\n')]):
        ck.ob(not g.ok and not g.conns and is_c(g.out, 'str'), 'fails:scheme', w, f'a url with an unsupported scheme is requested: {g.ret!r}')
    ck.floor('connections', n, 40)


# ------------------------------------------------------------------ P52
def p52(ck):
    ck.rule('for any response (each version and status, any headers and body, however split over reads), status, version, headers and body of the result are exactly those received; a malformed one is an error')
    url = S('http://h/x')
    w = ck.sp(GET)
    N, V, V2 = R('Rn', ':\r\n', ni=KNOWN), R('Rv', '\r\n'), R('Rv2', '\r\n')
    B, B2, B3 = (R(x, '', solid=False) for x in ('RB', 'RB2', 'RB3'))
    L = R('RL', '\r\n:')
    st = lambda c: const(ck, f'http::status::Status::{c}')
    n = 0

    def case(key, chunks, status='OK', ver='11', hs={}, body=Str(''), ov=None):
        nonlocal n
        for g in get(ck, url, chunks, ov=ov):
            n += 1
            if not ck.ob(g.ok, key + ':ok', w, f'{key}: a well formed response {chunks!r} is refused: {g.ret!r}'):
                continue
            ck.ob(equiv(g.I, g.st, project(g.resp, 'status'), st(status)), key + ':status', w, f'{key}: the status is {project(g.resp, "status")!r}')
            ck.ob(equiv(g.I, g.st, project(g.resp, 'version'), const(ck, f'http::version::Version::HTTP_{ver}')), key + ':version', w, f'{key}: the version is {project(g.resp, "version")!r}')
            ck.ob(headers({(Str(k) if isinstance(k, str) else k): (Str(v) if isinstance(v, str) else v) for k, v in hs.items()})(g, project(g.resp, 'header')), key + ':headers', w, f'{key}: the headers are {project(g.resp, "header")!r}')
            b = g.body()
            ck.ob(b is body or equiv(g.I, g.st, b, body) or is_c(body, 'str') and body.a[1] == '' and b is T('seq'), key + ':body', w, f'{key}: the body of {chunks!r} is {b!r} instead of {body!r}')
    for v, t in (('10', '1.0'), ('11', '1.1')):
        for c, code, ph in (('OK', 200, 'OK'), ('NOT_FOUND', 404, 'Not Found'), ('CREATED', 201, 'Created'), ('INTERNAL_SERVER_ERROR', 500, 'Internal Server Error'), ('MOVED_PERMANENTLY', 301, 'Moved Permanently')):
            for e in ('\r\n', '\n'):
                case(f'{t}:{c}', [S(f'HTTP/{t} {code} {ph}{e}', 'X-1: ', V, e, e, B)], c, v, {'X-1': V}, B)
    case('bare', [S(OK200, '\r\n')])
    for e in ('\r\n', '\n'):
        case('bare-body', [S('HTTP/1.1 200 OK', e, e, B)], body=B)
        case('bare-body-read', [S('HTTP/1.1 200 OK', e), S(e, B), B2], body=S(B, B2))
        case('junk-body', [S('HTTP/1.1 200 OK', e, R('J', ':\r\n'), e, e, B)], body=B)
    for sp in (': ', ':', ':  ', ':\t'):
        case('space', [S(OK200, N, sp, V, '\r\n\r\n')], hs={N: V})
    for tr in (' ', '  ', '\t'):
        case('trail', [S(OK200, 'X-1: ', V, tr, '\r\nX-2: ', V2, tr, '\r\n\r\n', B)], hs={'X-1': V, 'X-2': V2}, body=B)
    case('two', [S(OK200, 'X-1: ', V, '\r\nX-2: ', V2, '\r\n\r\n', B)], hs={'X-1': V, 'X-2': V2}, body=B)
    for g in get(ck, url, [S(OK200, 'Set-Cookie: ', V, '\r\nX-1: x\r\nSet-Cookie: ', V2, '\r\n\r\n')]):
        got = [deep(g.I, s, v) for s, v in g.I.entry(ck.fn('http::values::Values::vec'), [T('ref', ('X', 'resp'), ('header',)), Str('Set-Cookie')], g.st.copy())] if g.ok else []
        ck.ob(len(got) == 1 and equiv(g.I, g.st, some_of(got[0]), T('seq', V, V2)), 'repeated', w, f'a header sent twice is {got!r}')
    C1, C2 = R('Rc', ':\r\n'), R('Rd', ':\r\n')
    case('colon', [S(OK200, 'X-1: ', C1, ':', C2, '\r\nX-2: ', V2, '\r\n\r\n')], hs={'X-1': S(C1, ':', C2), 'X-2': V2})
    case('empty', [S(OK200, 'X-1:\r\nX-2: ', V2, '\r\n\r\n')], hs={'X-1': '', 'X-2': V2})
    case('split', [S(OK200, 'X-1: ', V), S('\r\n\r\n', B), B2], hs={'X-1': V}, body=S(B, B2))
    for nm in ('Content-Length', 'content-length'):
        def lens(v):
            def h(I, st_, c):
                return [(st_, wire.okv(v))] if I.strip(st_, c.args[0]) is L else NotImplemented
            return {'core::str::<impl str>::parse': h}
        case('length:' + nm, [S(OK200, nm, ': ', L, '\r\n\r\n', B)], hs={nm: L}, body=B, ov=lens(seg.length(B)))
        case('length-split:' + nm, [S(OK200, nm, ': ', L, '\r\n\r\n', B), B2], hs={nm: L}, body=S(B, B2), ov=lens(seg.length(S(B, B2))))
        case('length-more:' + nm, [S(OK200, nm, ': ', L, '\r\n\r\n', B, B2)], hs={nm: L}, body=B, ov=lens(seg.length(B)))
        case('length-zero:' + nm, [S(OK200, nm, ': 0\r\n\r\n', B)], hs={nm: '0'})
        case('length-end:' + nm, [S(OK200, nm, ': -1\r\n\r\n', B)], hs={nm: '-1'}, body=B)
    X, PH = R('Rx', ' \r\n', solid=False, ne=['HTTP/1.0', 'HTTP/1.1']), R('Rph', '\r\n', ne=['OK'])
    for key, text in (('version', S(X, ' 200 OK\r\n\r\n')), ('no-code', S('HTTP/1.1 OK\r\n\r\n')), ('code', S('HTTP/1.1 20x OK\r\n\r\n')), ('unknown', S('HTTP/1.1 999 OK\r\n\r\n')), ('phrase', S('HTTP/1.1 200 ', PH, '\r\n\r\n')),
                      ('no-phrase', S('HTTP/1.1 200 \r\n\r\n')), ('only-code', S('HTTP/1.1 200\r\n\r\n')), ('longer-phrase', S('HTTP/1.1 200 OK ', PH, '\r\n\r\n')), ('case-phrase', S('HTTP/1.1 200 ok\r\n\r\n')),
                      ('short-phrase', S('HTTP/1.1 404 Not\r\n\r\n')), ('no-version', S(' 200 OK\r\n\r\n')), ('case-version', S('http/1.1 200 OK\r\n\r\n')), ('no-status', S('HTTP/1.1  OK\r\n\r\n')), ('large', S('HTTP/1.1 65736 OK\r\n\r\n')),
                      ('empty-length', S(OK200, 'Content-Length:\r\n\r\n', B)), ('other-phrase', S('HTTP/1.1 404 OK\r\n\r\n')), ('blank', S('\r\n')), ('garbage', S(X, '\r\n\r\n')), ('length', S(OK200, 'Content-Length: x1\r\n\r\n', B)), ('negative', S(OK200, 'Content-Length: -2\r\n\r\n', B))):
        for g in get(ck, url, [text]):
            n += 1
            ck.ob(not g.ok, 'bad:' + key, w, f'the malformed response {text!r} is accepted: {g.ret!r}')
    # a response that ends early
    sure = R('Rs', '\r\n')
    for key, chunks, ov in (('line', [S('HTTP/1.1 200 O')], None), ('line-end', [S('HTTP/1.1 200 OK')], None), ('version', [S('HTTP/1.1')], None), ('head', [S(OK200)], None), ('name', [S(OK200, 'X-1')], None),
                            ('value', [S(OK200, 'X-1: ', sure)], None), ('header', [S(OK200, 'X-1: ', sure, '\r\n')], None), ('header-read', [S(OK200), S('X-1: ', sure, '\r\n')], None),
                            ('body', [S(OK200, 'Content-Length: ', L, '\r\n\r\n', B)], lens(seg.length(S(B, R('RB4', ''))))), ('body-read', [S(OK200, 'Content-Length: ', L, '\r\n\r\n'), B], lens(seg.length(S(B, R('RB4', ''))))),
                            ('no-body', [S(OK200, 'Content-Length: 5\r\n\r\n')], None)):
        for g in get(ck, url, chunks, ov=ov):
            n += 1
            ck.ob(not g.ok, 'early:' + key, w, f'the response {chunks!r} that ends early is accepted: {g.ret!r}')
    ck.floor('responses', n, 58)


# ------------------------------------------------------------------ P47
REQ = 'http::request::Request'
ADDR = 'http::url::authority::addr::Addr'


def p47(ck):
    ck.rule('the IPv4 (IPv6) address of a request is the first address of that family its host and port resolve to, for every list of addresses, and an error if there is none or the lookup '
            'fails; an address is shown as host:port; method, scheme, user info, address and path of a request are those of its url')
    H, D, P, U, W = R('Hh', ':@/?#\r\n ', first='h'), R('Dp', ':@/?#'), R('Pp', '/?=&#\r\n '), R('Uu', ':@/?#', first='u'), R('Wp', ':@/?#')
    pn = Int(8080)
    meths = ['GET', 'POST', 'DELETE']
    B6 = T('addr6b')
    lists = [(), (A4,), (A6,), (A6, A4), (A4, A6), (A4, B4), (B4, A4), (A6, B6), (B6, A6), (A4, A6, B6), (A6, A4, B4), (A4, B4, A6), (B6, A4, A6)]
    fam = {'socket_addr_ipv4': (A4, B4), 'socket_addr_ipv6': (A6, B6)}
    isv = {f'std::net::SocketAddr::is_{k}': (lambda I, st, c, xs=xs: [(st, Bool(I.strip(st, c.args[0]) in xs))]) for k, xs in (('ipv4', (A4, B4)), ('ipv6', (A6, B6)))}
    isv['std::net::ToSocketAddrs::to_socket_addrs'] = None
    n = 0
    for sc in ('http', 'https'):
        for port in (None, pn):
            for user in (None, U):
                url = S(sc, '://', *((user, ':', W, '@') if user is not None else ()), H, *((':', D) if port is not None else ()), '/', P)
                want = host_port(H, (80 if sc == 'http' else 443) if port is None else port)
                for m in meths if user is None and port is None else ['GET']:
                    mc = const(ck, f'http::method::Method::{m}')
                    for p in ck.run(f'{REQ}::new', [mc, url], segs=True, nojoin=True, overrides=ports(D, pn)):
                        if not ck.ob(p.I.variant_of(p.st, p.ret) == 'Ok', 'request:ok', ck.sp(f'{REQ}::new'), f'{url!r} is refused: {p.ret!r}'):
                            continue
                        n += 1
                        p.st.store[('X', 'rq')] = p.I.strip(p.st, project(project(p.ret, ('as', 'Ok')), '0'))

                        def ask(name, *args, ref=T('ref', ('X', 'rq'), ()), cls=REQ):
                            return [(s, deep(p.I, s, v)) for s, v in p.I.entry(ck.fn(f'{cls}::{name}'), [ref, *args], p.st.copy())]

                        def is_(name, want):
                            got = ask(name)
                            ck.ob(len(got) == 1 and equiv(p.I, got[0][0], got[0][1], want), f'request:{name}', ck.sp(f'{REQ}::{name}'), f'{name} of a request for {url!r} is {got!r}'[:300])
                        is_('method', mc)
                        is_('scheme', const(ck, f'http::url::scheme::Scheme::{sc.upper()}'))
                        is_('path', S('/', P))
                        for nm, cls, pre, v in (('host', ADDR, 'addr', H), ('port', ADDR, 'addr', Int(80 if sc == 'http' else 443) if port is None else port),
                                                ('to_string', ADDR, 'addr', want)):
                            for s, a in ask(pre):
                                s.store[('X', 'part')] = a
                                for s2, x in p.I.entry(ck.fn(f'{cls}::{nm}'), [T('ref', ('X', 'part'), ())], s):
                                    ck.ob(equiv(p.I, s2, deep(p.I, s2, x), v), f'request:{pre}:{nm}', ck.sp(f'{cls}::{nm}'), f'{nm} of the address of {url!r} is {x!r}')
                        for s, u in ask('userinfo'):
                            ck.ob((p.I.variant_of(s, u) == 'Some') == (user is not None), 'request:userinfo', ck.sp(f'{REQ}::userinfo'), f'the user info of {url!r} is {u!r}')
                            if p.I.variant_of(s, u) == 'Some':
                                s.store[('X', 'part')] = deep(p.I, s, some_of(u))
                                for nm, v in (('username', U), ('password', W)):
                                    for s2, x in p.I.entry(ck.fn(f'http::url::authority::userinfo::Userinfo::{nm}'), [T('ref', ('X', 'part'), ())], s):
                                        ck.ob(deep(p.I, s2, x) is v, f'request:{nm}', ck.sp(f'{REQ}::userinfo'), f'the {nm} of {url!r} is {x!r}')
                        for f, xs in fam.items():
                            for addrs in (lists if m == 'GET' and user is None else lists[:5]):
                                net = Net([], addrs=addrs)
                                p.I.overrides = dict(p.I.overrides, **{**isv, 'std::net::ToSocketAddrs::to_socket_addrs': net.resolve})
                                first = next((a for a in addrs if a in xs), None)
                                got = ask(f)
                                n += 1
                                ck.ob(len(got) >= 1, f'request:{f}:any', ck.sp(f'{REQ}::{f}'), f'{f} has no outcome')
                                for s, r in got:
                                    ok = p.I.variant_of(s, r) == 'Err' if first is None else p.I.variant_of(s, r) == 'Ok' and deep(p.I, s, fld(r, ('as', 'Ok'), '0')) is first
                                    ck.ob(ok, f'request:{f}', ck.sp(f'{REQ}::{f}'), f'{url!r} at {addrs!r}: {f} is {r!r}')
                                    ck.ob(list(s.store.get(WHO, T('seq')).a) == [want], f'request:{f}:name', ck.sp(f'{REQ}::{f}'), f'{url!r}: looked up {s.store.get(WHO)!r}')
                            net = Net([], resolve=False)
                            p.I.overrides = dict(p.I.overrides, **{'std::net::ToSocketAddrs::to_socket_addrs': net.resolve})
                            for s, r in ask(f):
                                ck.ob(p.I.variant_of(s, r) == 'Err', f'request:{f}:fails', ck.sp(f'{REQ}::{f}'), f'the lookup fails, but {f} is {r!r}')
    ck.floor('lookups', n, 150)



PROPS = {'P47': p47, 'P50': p50, 'P51': p51, 'P52': p52}
