"""Responses: what a handler sets against the bytes on the wire."""
from itertools import permutations

from ck import *
from ctxlib import *
from request import T_, HOST, hline, const, post, FORM, mpart, error_in, KNOWN, aside

COMP = 'utils::compress::Compress'
CT = 'http::header::content_type::ContentType'
RESP = 'http::response::Response'


def requests(ck, *lines, version='1.1', ov=None, chunks=None):
    gs = [g for g in explore(ck, chunks or [S('GET /', T_(), f' HTTP/{version}\r\n', HOST, *lines, '\r\n')], ov=ov) if g.ok]
    if not gs:
        raise Anchor('no request is accepted')
    return gs


def play(ck, g, sts, calls):
    """Context calls one after the other; results are checked by the caller's functions"""
    for c in calls:
        chk = c[-1] if callable(c[-1]) else None
        nxt = []
        for s, v in do(ck, g.I, sts, c[0], *(c[1:-1] if chk else c[1:])):
            if chk:
                chk(s, v)
            nxt.append(s)
        sts = nxt
    return sts


def same(I, st, a, b):
    return a is b or equiv(I, st, deep(I, st, a), b)


def wired(ck, key, st, start, headers, body, what):
    """What was written is exactly one message with this start line, these header values (in order per name) and body"""
    w = ck.sp(f'{RQ}::response')
    o = wire.out(st)
    m = Msg(o)
    if not ck.ob(m.ok, key + ':form', w, f'{what}: what is written is not one HTTP message: {o!r}'):
        return
    ck.ob(wire.flushed(st) is o, key + ':flush', w, f'{what}: what is written is not flushed at the end')
    ck.ob(m.start is S(start), key + ':start', w, f'{what}: the status line is {m.start!r} instead of {start!r}')
    got = {}
    for k, v in m.headers:
        got.setdefault(k, []).append(v)
    want = {S(k): [S(x) if isinstance(x, str) else x for x in vs] for k, vs in headers.items()}
    for k in want:
        ck.ob(got.get(k) == want[k], f'{key}:header:{k.a[1] if is_c(k) else "name"}', w, f'{what}: header {k!r} has values {got.get(k)!r} instead of {want[k]!r}')
    for k in got:
        ck.ob(k in want, key + ':extra', w, f'{what}: header {k!r}: {got[k]!r} is sent but was not set')
    ck.ob(m.body is S(body), key + ':body', w, f'{what}: the body is {m.body!r} instead of {body!r}')


def sent(ck, key, lines, calls, start, headers, body, compress=FALSE, version='1.1', ov=None, what=None, chunks=None, fails=None):
    n = 0
    for g in requests(ck, *lines, version=version, ov=ov, chunks=chunks):
        if ov:
            g.I.overrides = dict(g.I.overrides, **ov)
        for s in play(ck, g, context(ck, g, compress=compress), list(calls) + [('response',)]):
            n += 1
            wired(ck, key, s, start, headers, body, what or key)
    ck.ob(n > 0, key + ':any', ck.sp(f'{RQ}::response'), f'{key}: no outcome')


def base(body=Str(''), **more):
    h = {'Content-Length': [wire.num(seg.length(body))], 'Content-Type': ['text/plain']}
    h.update({k.replace('_', '-'): v for k, v in more.items()})
    return h


# ------------------------------------------------------------------ P30
def p30(ck):
    ck.rule('for each way a handler can set status, version, headers, cookies and body (any texts), the bytes written are exactly one message with that status line, exactly these headers and that body, flushed')
    N, V, V2, V3 = R('Nm', ':\r\n', ni=KNOWN), R('V', '\r\n'), R('V2', '\r\n'), R('V3', '\r\n')
    B, B2 = R('B', '', solid=False), R('B2', '', solid=False)
    ok = 'HTTP/1.1 200 OK'
    st = lambda n: const(ck, f'http::status::Status::{n}')
    sent(ck, 'default', [], [], ok, base(), '')
    sent(ck, 'free', aside(), [('resp_body', B)], ok, base(B), B)
    for ct in ('application/json', 'image/png', 'multipart/form-data; boundary=x'):
        sent(ck, 'asked-type', [f'Content-Type: {ct}\r\n'], [], ok, base(), '')
        for f in ('resp_body', 'resp_body_slice'):
            sent(ck, 'asked-type', [f'Content-Type: {ct}\r\n'], [(f, B)], ok, base(B), B)
        for f in ('resp_bodies', 'resp_body_slices'):
            sent(ck, 'asked-type', [f'Content-Type: {ct}\r\n'], [(f, B, const(ck, f'{CT}::APPLICATION_JSON'))], ok, base(B, Content_Type=['application/json']), B)
    sent(ck, 'default-1.0', [], [], 'HTTP/1.0 200 OK', base(), '', version='1.0')
    for n, c, ph in (('NOT_FOUND', 404, 'Not Found'), ('CREATED', 201, 'Created'), ('INTERNAL_SERVER_ERROR', 500, 'Internal Server Error'), ('NO_CONTENT', 204, 'No Content'),
                     ('IM_A_TEAPOT', 418, "I'm a teapot") if ck.p.find('http::status::Status::IM_A_TEAPOT') in ck.p.raw_fns else ('CONFLICT', 409, 'Conflict')):
        sent(ck, 'status:' + n, [], [('resp_status', st(n))], f'HTTP/1.1 {c} {ph}', base(), '')
    sent(ck, 'status:last', [], [('resp_status', st('CREATED')), ('resp_body', B), ('resp_status', st('NOT_FOUND'))], 'HTTP/1.1 404 Not Found', base(B), B)
    for v, t in (('10', '1.0'), ('11', '1.1')):
        sent(ck, 'version:' + t, [], [('resp_version', const(ck, f'http::version::Version::HTTP_{v}'))], f'HTTP/{t} 200 OK', base(), '')
    for f in ('resp_set_header', 'resp_set_header_str', 'resp_add_header', 'resp_add_header_str'):
        sent(ck, f, [], [(f, N, V)], ok, {**base(), N: [V]}, '')
        sent(ck, f + ':two', [], [(f, Str('X-1'), V), (f, Str('X-2'), V2)], ok, {**base(), 'X-1': [V], 'X-2': [V2]}, '')
        sent(ck, f + ':again', [], [(f, Str('X-1'), V), (f, Str('X-1'), V2)], ok, {**base(), 'X-1': [V, V2] if 'add' in f else [V2]}, '')
        sent(ck, f + ':body', [], [(f, Str('X-1'), V), ('resp_body', B)], ok, {**base(B), 'X-1': [V]}, B)
        sent(ck, f + ':body-first', [], [('resp_body', B), (f, Str('X-1'), V)], ok, {**base(B), 'X-1': [V]}, B)
    sent(ck, 'add3', [], [('resp_add_header', Str('X-1'), V), ('resp_add_header', Str('X-1'), V2), ('resp_add_header_str', Str('X-1'), V3)], ok, {**base(), 'X-1': [V, V2, V3]}, '')
    sent(ck, 'add-set', [], [('resp_add_header', Str('X-1'), V), ('resp_add_header', Str('X-1'), V2), ('resp_set_header', Str('X-1'), V3)], ok, {**base(), 'X-1': [V3]}, '')
    sent(ck, 'set-add', [], [('resp_set_header', Str('X-1'), V), ('resp_add_header', Str('X-1'), V2)], ok, {**base(), 'X-1': [V, V2]}, '')
    json = const(ck, f'{CT}::APPLICATION_JSON')
    sent(ck, 'type', [], [('resp_content_type', json)], ok, base(Content_Type=['application/json']), '')
    for f in ('resp_body', 'resp_body_slice'):
        sent(ck, f, [], [(f, B)], ok, base(B), B)
        sent(ck, f + ':again', [], [(f, B), (f, B2)], ok, base(B2), B2)
        sent(ck, f + ':type', [], [(f, B), ('resp_content_type', json)], ok, base(B, Content_Type=['application/json']), B)
    for f in ('resp_bodies', 'resp_body_slices'):
        sent(ck, f, [], [(f, B, json)], ok, base(B, Content_Type=['application/json']), B)
        sent(ck, f + ':again', [], [('resp_body', B), (f, B2, json)], ok, base(B2, Content_Type=['application/json']), B2)
        sent(ck, f + ':plain', [], [(f, B, json), ('resp_body', B2)], ok, base(B2), B2)


def p30_close(ck):
    ck.rule('the response says keep-alive exactly if the request lets the connection be kept, and has the version of the request; requests without keep-alive close')
    for v in ('1.0', '1.1'):
        for nm in ('Connection', 'connection', 'CONNECTION'):
            sent(ck, f'keep:{v}:{nm}', [f'{nm}: keep-alive\r\n'], [], f'HTTP/{v} 200 OK', base(Connection=['keep-alive']), '', version=v)
            sent(ck, f'close:{v}:{nm}', [f'{nm}: close\r\n'], [], f'HTTP/{v} 200 OK', base(), '', version=v)
        sent(ck, f'none:{v}', [], [], f'HTTP/{v} 200 OK', base(), '', version=v)
        for lines, cl in ((['Connection: keep-alive\r\n'], False), (['Connection: close\r\n'], True), ([], True), (['Connection: keep-alive\r\n', *aside()], False), (['Connection: close\r\n', *aside()], True), (aside(), True)):
            for g in requests(ck, *lines, version=v):
                c = deep(g.I, g.st, project(project(g.I.read(g.st, (('X', 'req'), ())), 'request'), 'close'))
                ck.ob(c is Bool(cl), f'decision:{v}', ck.sp(FROM), f'a request of version {v} with {lines!r} is taken to ' + ('keep' if cl else 'close') + ' the connection')


# ------------------------------------------------------------------ P31
CODINGS = {'gzip': 'gzip', 'deflate': 'deflate', 'zlib': 'zlib'}


def p31(ck):
    ck.rule('for each coding the peer accepts, compression on or off, success or failure, larger or smaller result: Content-Encoding names the coding exactly if the body sent is its output on the whole body, and Content-Length is the length of what is sent')
    B, Z = R('B', '', solid=False), R('Z', '', solid=False)
    B2 = R('B2', '', solid=False)
    json = const(ck, f'{CT}::APPLICATION_JSON')
    cases = [('resp_body', (), 'text/plain'), ('resp_body_slice', (), 'text/plain'), ('resp_bodies', (json,), 'application/json'), ('resp_body_slices', (json,), 'application/json')]
    n = 0
    for f, args, ct in cases:
        for coding in CODINGS:
            for good in (True, False):
                ov = {}
                for x in CODINGS.values():
                    def h(I, st, c, x=x):
                        ok = x == coding and I.strip(st, c.args[0]) is B
                        return [(st, wire.okv(Z if ok else T('wrong', x, c.args[0])))] if good else [(st, wire.errv(T('zerr')))]
                    ov[f'{COMP}::{x}'] = h
                for line in (f'Accept-Encoding: {coding}\r\n', f'accept-encoding: br, {coding}\r\n', f'Accept-Encoding: identity,{coding}\r\n'):
                    key = f'{f}:{coding}:{good}'
                    what = f'{f} for {line.strip()!r}, ' + ('compressible' if good else 'not compressible')
                    for g in requests(ck, line):
                        g.I.overrides = dict(g.I.overrides, **ov)
                        for s in play(ck, g, context(ck, g, compress=TRUE), [(f, B, *args), ('response',)]):
                            n += 1
                            m = Msg(wire.out(s))
                            enc = m.of('Content-Encoding') if m.ok else []
                            z = bool(enc)
                            ck.ob(good or not z, key + ':label', ck.sp(f'{RESP}::write_type'), f'{what}: labelled {enc!r} though compression failed')
                            if good and not z:
                                ck.ob(g.I.truth(s, g.I.binop(s, 'Lt', seg.length(B), seg.length(Z))) is True, key + ':used', ck.sp(f'{RESP}::write_type'), f'{what}: sent uncompressed though the compressed form is not longer')
                            body = Z if z else B
                            wired(ck, key, s, 'HTTP/1.1 200 OK', {**base(body, Content_Type=[ct]), **({'Content-Encoding': [coding]} if z else {})}, body, what)
        # never asked for, or switched off
        bad = {f'{COMP}::{x}': (lambda I, st, c: [(st, wire.okv(T('unwanted')))]) for x in CODINGS.values()}
        sent(ck, f + ':off', ['Accept-Encoding: gzip, deflate\r\n'], [(f, B, *args)], 'HTTP/1.1 200 OK', base(B, Content_Type=[ct]), B, ov=bad)
        for line in ('', 'Accept-Encoding: br\r\n', 'Accept-Encoding: identity\r\n', 'Accept-Encoding: gzipx\r\n', 'Accept-Encoding: x-gzip, compress\r\n'):
            sent(ck, f + ':unasked', [line], [(f, B, *args)], 'HTTP/1.1 200 OK', base(B, Content_Type=[ct]), B, compress=TRUE, ov=bad)
    # an uncompressed body after a compressed one carries no label
    for a, b in permutations([c[0] for c in cases[:2]], 2):
        def h1(I, st, c):
            return [(st, wire.okv(Z)), (st.copy(), wire.errv(T('zerr')))]
        for g in requests(ck, 'Accept-Encoding: gzip\r\n'):
            g.I.overrides = dict(g.I.overrides, **{f'{COMP}::gzip': h1})
            for s in play(ck, g, context(ck, g, compress=TRUE), [(a, B), (b, B2), ('response',)]):
                m = Msg(wire.out(s))
                z = m.ok and bool(m.of('Content-Encoding'))
                ck.ob(m.ok and (m.body is Z if z else m.body is B2), 'again:label', ck.sp(f'{RESP}::write_type'), f'{a} then {b}: {wire.out(s)!r}')
    ck.floor('compressed responses', n, 72)


# ------------------------------------------------------------------ P33
def p33(ck):
    ck.rule('calling response again, or after a form error that was answered, writes nothing more; a failing write ends the response: nothing is written after it')
    B = R('B', '', solid=False)
    B2 = R('B2', '', solid=False)
    w = ck.sp(f'{CTX}::response')
    for g in requests(ck):
        for s in play(ck, g, context(ck, g), [('resp_body', B), ('response',)]):
            o = wire.out(s)
            for calls in ([('response',)], [('resp_body', B2), ('response',)], [('resp_status', const(ck, 'http::status::Status::NOT_FOUND')), ('response',), ('response',)]):
                for s2 in play(ck, g, [s], calls):
                    ck.ob(wire.out(s2) is o, 'once', w, f'after the response a further {calls!r} writes {wire.out(s2)!r}')
    BD = R('BD', '\r\n ;:"=,')
    X = R('XL', ' \t\r\n;"=', ne=[S('Content-Disposition: form-data')])
    ch, ov = mpart('--', BD, '\r\n', X, '\r\n\r\nx\r\n--', BD, '--\r\n')
    for f, args in (('req_form', (Str('a'),)), ('req_have_form', (Str('a'),)), ('req_count_form', ()), ('req_form_file', (Str('a'),))):
        for g in requests(ck, chunks=ch, ov=ov):
            for s, v in do(ck, g.I, context(ck, g), f, *args):
                o = wire.out(s)
                ck.ob(g.I.variant_of(s, v) == 'Err' and error_in(o, 400), f'form:{f}', ck.sp(f'{CTX}::{f}'), f'{f} on a malformed form: {v!r}, {o!r}')
                for calls in ([('response',)], [(f, *args), ('response',)], [('resp_body', B2), ('response',)]):
                    for s2 in play(ck, g, [s], calls):
                        ck.ob(wire.out(s2) is o, f'form:{f}:once', ck.sp(f'{CTX}::response'), f'after the answered form error a response is written as well: {wire.out(s2)!r}')
    FAILED = ('X', 'failed')

    def wr(I, st, c):
        s1, s2 = st.copy(), st.copy()
        k = s1.store.get(('X', 'after'), Int(0)).a[1]
        if st.store.get(FAILED) is TRUE:
            s1.store[('X', 'after')] = Int(k + 1)
            return [(s1, okv_())]
        s2.store[FAILED] = TRUE
        return [(s1, okv_()), (s2, wire.errv(T('ioerr', 'write')))]

    def okv_():
        return wire.OKU
    n = 0
    for g in requests(ck):
        g.I.overrides = dict(g.I.overrides, **{**wire.failing(wire.Wire([]), wr), 'std::io::Write::flush': wr})
        for s0 in context(ck, g):
            resp = g.I.read(s0, (('X', 'ctx'), ('response',)))
            for s, v in g.I.entry(ck.fn(f'{RQ}::response'), [RQREF, resp], s0.copy()):
                n += 1
                bad = s.store.get(FAILED) is TRUE
                ck.ob(g.I.variant_of(s, v) == ('Err' if bad else 'Ok'), 'write:result', ck.sp(f'{RQ}::response'), f'the response returns {v!r}, a write ' + ('failed' if bad else 'never failed'))
                ck.ob(s.store.get(('X', 'after'), Int(0)) is Int(0), 'write:after', ck.sp(f'{RQ}::response'), 'the response goes on writing after a write failed')
            for s in play(ck, g, [s0.copy()], [('response',)]):
                if s.store.get(FAILED) is not TRUE:
                    continue
                for calls in ([('response',)], [('resp_body', B2), ('response',)]):
                    for s2 in play(ck, g, [s.copy()], calls):
                        n += 1
                        ck.ob(s2.store.get(('X', 'after'), Int(0)) is Int(0), 'write:again', w, f'after a response of which a write failed, {calls!r} writes to the connection')
    ck.floor('points at which writing fails', n, 2)


PROPS = {'P30': [p30, p30_close], 'P31': p31, 'P33': p33}
