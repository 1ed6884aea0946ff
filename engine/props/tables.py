"""The fixed vocabularies: status codes, methods, versions, schemes, media types, codings."""
import re
from itertools import permutations, product

from ck import *
from reqlib import *
import seg
import wire
from request import const

ST, ME, VE, SC, CT, CI, AE = ('http::status::Status', 'http::method::Method', 'http::version::Version', 'http::url::scheme::Scheme', 'http::header::content_type::ContentType',
                              'http::header::content_type::Inner', 'http::header::encode_type::AcceptEncoding')

STATUS = {
    100: 'Continue', 101: 'Switching Protocols', 102: 'Processing',
    200: 'OK', 201: 'Created', 202: 'Accepted', 203: 'Non-Authoritative Information', 204: 'No Content', 205: 'Reset Content', 206: 'Partial Content',
    207: 'Multi-Status', 208: 'Already Reported', 226: 'IM Used',
    300: 'Multiple Choices', 301: 'Moved Permanently', 302: 'Found', 303: 'See Other', 304: 'Not Modified', 305: 'Use Proxy', 307: 'Temporary Redirect', 308: 'Permanent Redirect',
    400: 'Bad Request', 401: 'Unauthorized', 402: 'Payment Required', 403: 'Forbidden', 404: 'Not Found', 405: 'Method Not Allowed', 406: 'Not Acceptable',
    407: 'Proxy Authentication Required', 408: 'Request Timeout', 409: 'Conflict', 410: 'Gone', 411: 'Length Required', 412: 'Precondition Failed', 413: 'Payload Too Large',
    414: 'URI Too Long', 415: 'Unsupported Media Type', 416: 'Range Not Satisfiable', 417: 'Expectation Failed', 418: "I'm a teapot", 421: 'Misdirected Request',
    422: 'Unprocessable Entity', 423: 'Locked', 424: 'Failed Dependency', 426: 'Upgrade Required', 428: 'Precondition Required', 429: 'Too Many Requests',
    431: 'Request Header Fields Too Large', 451: 'Unavailable For Legal Reasons',
    500: 'Internal Server Error', 501: 'Not Implemented', 502: 'Bad Gateway', 503: 'Service Unavailable', 504: 'Gateway Timeout', 505: 'HTTP Version Not Supported',
    506: 'Variant Also Negotiates', 507: 'Insufficient Storage', 508: 'Loop Detected', 510: 'Not Extended', 511: 'Network Authentication Required'}


def cname(phrase):
    return phrase.upper().replace("'", '').replace('-', '_').replace(' ', '_')


def call(ck, fn, *args):
    """Every outcome of a function on values: [(path, resolved result)]"""
    def f(I, st):
        out = []
        b = I.p.body(ck.fn(fn))
        for i, a in enumerate(args):
            ty = b.ty(i + 1)
            out.append(ref_to(st, i, a, ty))
        return out
    return [(p, deep(p.I, p.st, p.ret)) for p in ck.run(fn, f, segs=True, nojoin=True, keep=lambda x: False)]


def ref_to(st, i, a, ty):
    """The value behind as many references as the parameter type has (texts are their own referents)"""
    n, s = 0, ty.s if ty is not None else ''
    while s.startswith('&'):
        n += 1
        s = re.sub(r"^&('\w+ )?(mut )?", '', s)
    if s in ('str', '[u8]'):
        n = max(n - 1, 0)
    for k in range(n):
        st.store[('X', 'arg', i, k)] = a
        a = T('ref', ('X', 'arg', i, k), ())
    return a


def one(ck, fn, *args):
    """The only result of a function on values, or None"""
    vs = {v for _, v in call(ck, fn, *args)}
    return vs.pop() if len(vs) == 1 else None


def kind(ck, p, v):
    return p.I.variant_of(p.st, v)


def okv(p, v):
    return deep(p.I, p.st, fld(v, ('as', 'Ok'), '0')) if p.I.variant_of(p.st, v) == 'Ok' else None


def shown_as(ck, fn, v):
    """What a Debug or Display implementation writes"""
    f = ck.fn(fn)

    def args(I, st):
        st.store[('X', 'v')] = v
        st.store[('X', 'f')] = Str('')
        return [T('ref', ('X', 'v'), ()), T('ref', ('X', 'f'), ())]
    outs = {p.I.strip(p.st, p.I.read(p.st, (('X', 'f'), ()))) for p in ck.run(f, args, segs=True, nojoin=True, keep=lambda x: False)}
    return outs.pop() if len(outs) == 1 else None


def impls(ck, ty):
    """Every equality the type has: (function, left type, right type)"""
    out = []
    for n, f in sorted(ck.p.raw_fns.items()):
        if f.get('trait') != 'std::cmp::PartialEq' or f.get('name') != 'eq':
            continue
        b = ck.p.body(n)
        a, c = plain(b.ty(1).s), plain(b.ty(2).s)
        if ty in (a, c):
            out.append((n, a, c))
    return out


def plain(s):
    return re.sub(r"&('\w+ )?(mut )?", '', s)


def fresh(i, names):
    """Any text that is none of the names"""
    return R(f'no{i}', ne=tuple(names))


def equalities(ck, ty, consts, names, codes=None, other=()):
    """Every equality of the type: between two values iff they are the same constant, with a text iff it is the constant's name, with a number iff it is its code"""
    n = 0
    X = R(f'not {ty}', ne=tuple(sorted(set(names.values()))))
    low = [s.swapcase() for s in names.values() if s.swapcase() not in names.values()]
    for fn, a, b in impls(ck, ty):
        w = ck.sp(fn)
        left, right = a == ty, b == ty
        if left and right:
            cs = sorted(consts)
            for x in cs:
                for y in cs:
                    n += 1
                    ck.ob(one(ck, fn, consts[x], consts[y]) is Bool(x == y), f'eq:{fn}', w, f'{x} == {y} is {one(ck, fn, consts[x], consts[y])!r}')
            continue
        o = b if left else a
        for x in sorted(consts):
            if o == 'u16' and codes:
                vs = [(Int(codes[x]), True)] + [(Int(c), False) for c in (0, codes[x] + 1, codes[x] - 1, codes[x] + 100)]
            elif o in ('str', 'std::string::String'):
                vs = [(Str(names[x]), True), (X, False), (Str(''), names[x] == ''), (Str(names[x].swapcase()), names[x].swapcase() == names[x])] \
                    + [(Str(m), m == names[x]) for m in sorted(names.values())[:60] if m != names[x]]
            else:
                ck.ob(False, f'eq:{fn}:type', w, f'equality of {a} with {b} is not known to this rule')
                break
            for v, want in vs:
                n += 1
                got = one(ck, fn, consts[x], v) if left else one(ck, fn, v, consts[x])
                ck.ob(got is Bool(want), f'eq:{fn}', w, f'{x} == {v!r} is {got!r}' if left else f'{v!r} == {x} is {got!r}')
    return n


def p40(ck):
    ck.rule('each status constant has the registered code and phrase; looking a code up, for any 16 bit number, gives the constant of that code or an error if there is none; '
            'code, phrase, phrase bytes, debug text and every equality (status, text, number; both ways) agree with that')
    consts = {}
    for c, ph in STATUS.items():
        n = f'{ST}::{cname(ph)}'
        v = consts[cname(ph)] = const(ck, n)
        w = ck.sp(n)
        for f, want in (('code', Int(c)), ('phrase', Str(ph)), ('phrase_as_slice', Str(ph))):
            got = one(ck, f'{ST}::{f}', v)
            ck.ob(got is want, f'status:{c}:{f}', w, f'{f} of {cname(ph)} is {got!r} instead of {want!r}')
        got = shown_as(ck, f'<{ST} as std::fmt::Debug>::fmt', v)
        ck.ob(got is Str(f'{c} {ph}'), f'status:{c}:debug', w, f'{cname(ph)} is shown as {got!r}')
        for p, r in call(ck, f'{ST}::from_code', Int(c)):
            ck.ob(okv(p, r) is v, f'status:{c}:from_code', ck.sp(f'{ST}::from_code'), f'from_code({c}) is {r!r}')
    extra = [n for n in ck.p.raw_fns if n.startswith(ST + '::') and n[len(ST) + 2:].isupper() and n[len(ST) + 2:] not in consts]
    for n in extra:
        v = const(ck, n)
        ck.ob(v not in consts.values(), f'status:extra:{n}', ck.sp(n), f'{n} is another name of a status that exists')
        consts[n[len(ST) + 2:]] = v
    N = T('arg', 'code')
    seen, errs = set(), 0
    for p in ck.run(f'{ST}::from_code', [N], segs=True, nojoin=True, keep=lambda x: False):
        r = deep(p.I, p.st, p.ret)
        k = p.st.facts.get(N)
        if okv(p, r) is None:
            errs += 1
            ck.ob(kind(ck, p, r) == 'Err' and (k not in STATUS), 'status:any:err', ck.sp(f'{ST}::from_code'), f'from_code gives {r!r} for {k!r}')
            continue
        seen.add(k)
        ck.ob(isinstance(k, int) and okv(p, r) in consts.values() and fld(okv(p, r), '0') is Int(k), 'status:any', ck.sp(f'{ST}::from_code'),
              f'from_code gives {okv(p, r)!r} for {"a code outside the table" if k is None else k}')
    ck.ob(errs >= 1, 'status:any:rest', ck.sp(f'{ST}::from_code'), 'no code is refused')
    for c in (0, 1, 99, 103, 209, 225, 306, 309, 419, 420, 425, 427, 430, 432, 509, 512, 600, 999, 65535):
        if not any(fld(v, '0') is Int(c) for v in consts.values()):
            for p, r in call(ck, f'{ST}::from_code', Int(c)):
                ck.ob(kind(ck, p, r) == 'Err', f'status:none:{c}', ck.sp(f'{ST}::from_code'), f'from_code({c}) is {r!r}')
    ck.floor('codes', len(seen), 60)
    cs = {k: consts[k] for k in consts}
    n = equalities(ck, ST, cs, {k: fld(v, '1').a[1] for k, v in cs.items()}, {k: fld(v, '0').a[1] for k, v in cs.items()})
    ck.floor('equalities', n, 5000)


ANSWERS = {'success': 200, 'bad_request': 400, 'unauthorized': 401, 'forbidden': 403, 'not_found': 404, 'method_not_allowed': 405, 'not_acceptable': 406,
           'request_timeout': 408, 'http_version_not_supported': 505, 'length_required': 411, 'expectation_failed': 417}
RESP = 'http::response::Response'


def p40_answers(ck):
    ck.rule('each ready-made response carries the status it is named after, and a custom one the given status')
    n = 0

    def status(v):
        return {x for x in subterms(v) if x.op == 'agg' and x.a[0] == ST}
    for name in sorted(f[len(RESP) + 2:] for f in ck.p.raw_fns if f.startswith(RESP + '::')):
        fn = f'{RESP}::{name}'
        b = ck.p.body(ck.fn(fn))
        if b.argc != 0 or b.ty(0).s != RESP:
            continue
        n += 1
        v = one(ck, fn)
        want = ANSWERS.get(name)
        if want is None:
            want = next((c for c, ph in STATUS.items() if cname(ph).lower() == name), None)
        ck.ob(want is None or status(v) == {const(ck, f'{ST}::{cname(STATUS[want])}')}, f'answer:{name}', ck.sp(fn), f'Response::{name}() carries {status(v)!r}')
    ck.floor('ready-made responses', n, 11)
    for c, ph in STATUS.items():
        s = const(ck, f'{ST}::{cname(ph)}')
        ck.ob(status(one(ck, f'{RESP}::custom', s)) == {s}, f'answer:custom:{c}', ck.sp(f'{RESP}::custom'), f'Response::custom({ph}) carries another status')


METHODS = ['OPTIONS', 'GET', 'POST', 'PUT', 'DELETE', 'HEAD', 'TRACE', 'CONNECT', 'PATCH', 'LINK', 'UNLINK', 'PRI']


def parse(ck, key, fns, names, consts, default=None, near=()):
    """Parsing the name of a constant gives it; any other text is refused, or gives the default"""
    ids = tuple(sorted(set(names.values())))
    for fn in fns:
        w = ck.sp(fn)
        for x, t in sorted(names.items()):
            for p, r in call(ck, fn, Str(t)):
                got = okv(p, r) if default is None else r
                ck.ob(got is consts[x], f'{key}:parse:{x}', w, f'{t!r} is parsed to {r!r}')
        n = 0
        for t in [R(f'any {key}', ne=ids, npre=tuple(near[1]) if near and near[1] else ())] + [Str(x) for x in others(ids) if not (near and near[0](x))]:
            for p, r in call(ck, fn, t):
                n += 1
                ck.ob(kind(ck, p, r) == 'Err' if default is None else r is default, f'{key}:parse:other', w, f'{t!r} is parsed to {r!r}')
        if default is None and key != 'method':
            for p, r in call(ck, fn, Str('')):
                ck.ob(kind(ck, p, r) == 'Err', f'{key}:parse:empty', w, f'the empty text is parsed to {r!r}')
        ck.floor(f'{key} texts', n, 10)


def others(ids):
    """Texts close to the names that are none of them"""
    out = set()
    for t in ids:
        out |= {t.lower(), t.upper(), t.title(), t[:-1], t[1:], t + ' ', ' ' + t, t + t[-1:], t + 'S', t[::-1], t + '\0', t.replace('1', '2'), t.replace('/', ' '), t.swapcase()}
    return sorted(x for x in out if x and x not in ids)


def p41(ck):
    ck.rule('each of the twelve methods is parsed exactly from its upper case name, from text and from bytes, and nothing else is; name, text and debug form and every equality give '
            'that name; safe, idempotent and cacheable hold for exactly the documented methods')
    consts = {m: const(ck, f'{ME}::{m}') for m in METHODS}
    names = {m: m for m in METHODS}
    ck.ob(len(set(consts.values())) == 12, 'method:distinct', ME, 'two methods are the same')
    parse(ck, 'method', [f'{ME}::from_bytes', f'{ME}::from_str'], names, consts)
    sets = {'is_safe': {'GET', 'HEAD', 'OPTIONS', 'TRACE'}, 'is_idempotent': {'PUT', 'DELETE'}, 'is_cacheable': {'GET', 'HEAD', 'POST'}}
    for m, v in consts.items():
        text(ck, 'method', ME, m, v, m, ['as_str'], debug=m)
        for f, xs in sets.items():
            got = one(ck, f'{ME}::{f}', v)
            ck.ob(got is Bool(m in xs), f'method:{f}:{m}', ck.sp(f'{ME}::{f}'), f'{m}.{f}() is {got!r}')
    ck.floor('equalities', equalities(ck, ME, consts, names), 700)


def text(ck, key, ty, x, v, name, fns, debug=None):
    """Every textual form of a value is its name"""
    for f in [f'{ty}::{f}' for f in fns] + [f'<{ty} as std::convert::AsRef<str>>::as_ref', f'<{ty} as std::string::ToString>::to_string']:
        if ck.p.find(f) is None and f.startswith('<'):
            continue
        got = one(ck, f, v)
        ck.ob(got is Str(name), f'{key}:{f.split("::")[-1]}:{x}', ck.sp(f), f'{x} as text is {got!r}')
    for tr in ('Debug', 'Display'):
        f = f'<{ty} as std::fmt::{tr}>::fmt'
        if ck.p.find(f) is None or tr == 'Debug' and debug is None:
            continue
        got = shown_as(ck, f, v)
        ck.ob(got is Str(debug if tr == 'Debug' else name), f'{key}:{tr}:{x}', ck.sp(f), f'{x} is shown as {got!r}')


VERSIONS = {'HTTP_10': ('HTTP/1.0', 1, 0), 'HTTP_11': ('HTTP/1.1', 1, 1)}
SCHEMES = {'HTTP': 'http', 'HTTPS': 'https'}


def p42(ck):
    ck.rule('versions and schemes are parsed exactly from their names, from text and from bytes, and nothing else is; their textual forms, numbers, equalities and tls-ness agree')
    consts = {m: const(ck, f'{VE}::{m}') for m in VERSIONS}
    names = {m: v[0] for m, v in VERSIONS.items()}
    parse(ck, 'version', [f'{VE}::from_bytes', f'{VE}::from_str'], names, consts)
    for m, v in consts.items():
        text(ck, 'version', VE, m, v, names[m], ['as_slice'], debug=names[m])
        for f, i in (('major', 1), ('minor', 2)):
            got = one(ck, f'{VE}::{f}', v)
            ck.ob(got is Int(VERSIONS[m][i]), f'version:{f}:{m}', ck.sp(f'{VE}::{f}'), f'{m}.{f}() is {got!r}')
    ck.ob(len({one(ck, f'{VE}::protocol', v) for v in consts.values()} - {None}) == len(consts), 'version:protocol', ck.sp(f'{VE}::protocol'), 'two versions have the same protocol')
    n = equalities(ck, VE, consts, names)
    consts = {m: const(ck, f'{SC}::{m}') for m in SCHEMES}
    parse(ck, 'scheme', [f'{SC}::from_bytes', f'{SC}::from_str'], SCHEMES, consts)
    for m, v in consts.items():
        text(ck, 'scheme', SC, m, v, SCHEMES[m], ['as_str'], debug=SCHEMES[m])
        got = one(ck, f'{SC}::is_tls', v)
        ck.ob(got is Bool(m == 'HTTPS'), f'scheme:tls:{m}', ck.sp(f'{SC}::is_tls'), f'{m}.is_tls() is {got!r}')
    n += equalities(ck, SC, consts, SCHEMES)
    ck.floor('equalities', n, 60)


TYPES = {'TEXT_HTML': 'text/html', 'TEXT_PLAIN': 'text/plain', 'TEXT_XML': 'text/xml', 'IMAGE_GIF': 'image/gif', 'IMAGE_JPEG': 'image/jpeg', 'IMAGE_PNG': 'image/png',
         'APPLICATION_XHTML_XML': 'application/xhtml+xml', 'APPLICATION_XML': 'application/xml', 'APPLICATION_ATOM_XML': 'application/atom+xml',
         'APPLICATION_JSON': 'application/json', 'APPLICATION_PDF': 'application/pdf', 'APPLICATION_MS_WORD': 'application/msword',
         'APPLICATION_OCTET_STREAM': 'application/octet-stream', 'APPLICATION_X_WWW_FORM_URL_ENCODED': 'application/x-www-form-urlencoded'}
MULTI = 'multipart/form-data; boundary='


def p43(ck):
    ck.rule('each media type is parsed from exactly its name, a multipart type with a boundary to that boundary whatever it is, everything else to octet-stream; textual forms and '
            'equalities agree; custom and multipart types carry exactly what they are made of')
    consts = {m: const(ck, f'{CT}::{m}') for m in TYPES}
    octet = consts['APPLICATION_OCTET_STREAM']
    ck.ob(len(set(consts.values())) == len(TYPES), 'type:distinct', CT, 'two media types are the same')
    ck.ob(one(ck, f'{CT}::default') is octet, 'type:default', ck.sp(f'{CT}::default'), 'the default type is not octet-stream')
    f = f'{CT}::from_str'
    parse(ck, 'type', [f], TYPES, consts, default=octet, near=(lambda x: x.startswith('multipart/form-data; boundary='), [MULTI]))
    for t in (MULTI, MULTI[:-1], 'multipart/form-data', 'multipart/form-data; ', 'multipart/mixed; boundary=x', 'x' + MULTI + 'y'):
        for p, r in call(ck, f, Str(t)):
            ck.ob(r is octet, 'type:multi:none', ck.sp(f), f'{t!r} is parsed to {r!r}')
    B = R('bound')
    bound = one(ck, f'{CT}::multipart_form_data', B)
    ck.ob(bound is not None and any(x is B for x in subterms(bound)), 'type:multi', ck.sp(f'{CT}::multipart_form_data'), f'a multipart type is {bound!r}')
    for b in (B, Str('x'), Str('----1'), S('--', B), S(B, '--')):
        want = one(ck, f'{CT}::multipart_form_data', b)
        ck.ob(want is not None and want is one(ck, f'{CT}::multipart_form_data_str', b), 'type:multi:str', ck.sp(f'{CT}::multipart_form_data_str'), f'the multipart type of {b!r} differs')
        for p, r in call(ck, f, S(MULTI, b)):
            ck.ob(r is want, 'type:multi:parse', ck.sp(f), f'{S(MULTI, b)!r} is parsed to {r!r} instead of {want!r}')
        v = one(ck, f'{CI}::as_str', one(ck, f'{CT}::inner', want))
        ck.ob(v is Str('multipart/form-data') and one(ck, f'{CT}::as_str', want) is v, 'type:multi:text', ck.sp(f'{CI}::as_str'), f'the multipart type is shown as {v!r}')
        c = one(ck, f'{CT}::custom', b)
        ck.ob(c is one(ck, f'{CT}::custom_str', b) and one(ck, f'{CT}::as_str', c) is b, 'type:custom', ck.sp(f'{CT}::custom'), f'the custom type {b!r} is {c!r}')
        for x in TYPES:
            for fn, l, r in impls(ck, CT):
                if l == r == CT:
                    for y in (want, c):
                        ck.ob(one(ck, fn, y, consts[x]) is FALSE and one(ck, fn, consts[x], y) is FALSE and one(ck, fn, y, y) is TRUE, 'type:custom:eq', ck.sp(fn), f'{y!r} equals {x}')
    for m, v in consts.items():
        text(ck, 'type', CT, m, v, TYPES[m], ['as_str'], debug=TYPES[m])
    ck.floor('equalities', equalities(ck, CT, consts, TYPES), 900)


CODINGS = ['gzip', 'deflate', 'zlib']


def p45(ck):
    ck.rule('of the codings a client lists, in any order and with or without blanks around the commas, gzip is chosen if listed, else deflate, else zlib, else none; a name that is not '
            'exactly a coding counts for nothing; names and equalities of the codings agree')
    fn = f'{AE}::best'
    w = ck.sp(fn)
    U1, U2 = R('u1', ', ;\t\r\n', ne=tuple(CODINGS)), R('u2', ', ;\t\r\n', ne=tuple(CODINGS))
    n = 0
    cases = [[]]
    for k in (1, 2, 3):
        cases += [list(x) for x in product(CODINGS + ['br', U1, 'GZIP', 'x-gzip', 'gzip2'], repeat=k)]
    cases += [[U1, U2, a, b] for a in CODINGS for b in CODINGS] + [list(x) for x in permutations(CODINGS + ['identity'])] + [['*'], ['gzi'], ['deflate2', 'zlib'], ['']]
    kinds = {}
    for f in ('gzip', 'deflate', 'br', 'zlib', ''):
        g = one(ck, f'<{AE} as std::convert::From<&str>>::from', Str(f))
        kinds[f] = g
        for fm in (f'{AE}::as_str', f'<{AE} as std::string::ToString>::to_string'):
            ck.ob(g is not None and one(ck, fm, g) is Str(f), f'coding:name:{f}', ck.sp(fm), f'the coding {f!r} is called {g!r}')
        ck.ob(one(ck, f'<{AE} as std::convert::From<std::string::String>>::from', Str(f)) is g, f'coding:string:{f}', AE, f'the coding {f!r} differs between text and string')
    ck.ob(len(set(kinds.values())) == 5, 'coding:distinct', AE, 'two codings are the same')
    for x in [R('other coding', ne=('gzip', 'deflate', 'br', 'zlib')), Str('GZIP'), Str('gzip '), Str('bro')]:
        g = one(ck, f'<{AE} as std::convert::From<&str>>::from', x)
        ck.ob(g is kinds[''], 'coding:other', AE, f'{x!r} is taken for the coding {g!r}')
    for c in cases:
        want = next((x for x in CODINGS if x in c), None)
        for sep in (',', ', ', ' , '):
            t = S(*[y for i, x in enumerate(c) for y in ([sep] if i else []) + [x]])
            for p, r in call(ck, fn, t):
                n += 1
                k = kind(ck, p, r)
                ok = k == 'None' if want is None else k == 'Some' and deep(p.I, p.st, some_of(r)) is kinds[want]
                ck.ob(ok, f'best:{want}', w, f'the coding chosen for {t!r} is {r!r}')
    ck.floor('codings offered', n, 1500)
    ck.floor('equalities', equalities(ck, AE, kinds, {k: k for k in kinds}), 60)


PROPS = {'P45': p45, 'P40': [p40, p40_answers], 'P41': p41, 'P42': p42, 'P43': p43}
