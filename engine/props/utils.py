"""The utilities: compression, text codings, errors and texts, times."""
import re

from ck import *
import absint
import seg
import wire
from mir import canon
from seg import R, S
from tables import call, shown_as

CMP = 'utils::compress::Compress'
FL = 'flate2::'
KINDS = {'gzip': 'Gz', 'deflate': 'Deflate', 'zlib': 'Zlib'}


def fork(st, good, bad):
    return [(st.copy(), wire.okv(good)), (st.copy(), wire.errv(bad))]


class Codec:
    """The compressors as abstract machines: what was given to them so far, and what comes out at the end."""

    def new(self, kind, way, side):
        def h(I, st, c):
            inner = I.strip(st, c.args[0])
            return [(st, T('cod', kind, way, side, inner, T('seq'), c.args[1] if len(c.args) > 1 else UNIT))]
        return h

    def at(self, I, st, c):
        ad = I.deref_addr(c.args[0])
        while True:
            v = I.read(st, ad)
            if v.op != 'ref':
                return ad, v
            ad = I.deref_addr(v)

    def result(self, I, st, v):
        """What a finished machine puts out"""
        kind, way, _, inner, got, lv = v.a
        return T('coded' if way == 'enc' else 'decoded', kind, T('seq', *[deep(I, st, x) for x in got.a]), lv if way == 'enc' else UNIT)

    def write(self, whole):
        def h(I, st, c):
            ad, v = self.at(I, st, c)
            if v.op != 'cod' or v.a[2] != 'write':
                return NotImplemented
            d = I.strip(st, c.args[1])
            s1, s2 = st.copy(), st.copy()
            I.write(s1, ad, T('cod', *v.a[:4], T('seq', *v.a[4].a, d if whole else T('some of', d)), v.a[5]))
            return [(s1, wire.OKU if whole else wire.okv(T('count', d))), (s2, wire.errv(T('ioerr', 'write')))]
        return h

    def finish(self, take):
        def h(I, st, c):
            if take:
                v = I.strip(st, c.args[0])
            else:
                ad, v = self.at(I, st, c)
            if v.op != 'cod' or v.a[2] != 'write':
                return NotImplemented
            if v.a[3].op != 'seq' and not (is_c(v.a[3], 'str') and v.a[3].a[1] == ''):
                return NotImplemented
            if not (v.a[3] is Str('') or v.a[3] is T('seq')):
                return NotImplemented
            return fork(st, self.result(I, st, v), T('ioerr', 'finish'))
        return h

    def flush(self, I, st, c):
        ad, v = self.at(I, st, c)
        return fork(st, UNIT, T('ioerr', 'flush')) if v.op == 'cod' else NotImplemented

    def drain(self, I, st, v, dst):
        """Everything a reading machine delivers goes to the end of dst; or it fails on the way"""
        out = T(('coded' if v.a[1] == 'enc' else 'decoded'), v.a[0], T('seq', deep(I, st, v.a[3])), v.a[5] if v.a[1] == 'enc' else UNIT)
        r = []
        for ok in (True, False):
            s = st.copy()
            old = I.strip(s, I.read(s, dst))
            x = out if ok else T('part', out)
            I.write(s, dst, x if old in (Str(''), T('seq')) else T('after', old, x))
            r.append((s, wire.okv(T('len', out)) if ok else wire.errv(T('ioerr', 'read'))))
        return r

    def read_to_end(self, I, st, c):
        ad, v = self.at(I, st, c)
        if v.op != 'cod' or v.a[2] != 'read':
            return NotImplemented
        return self.drain(I, st, v, I.deref_addr(c.args[1]))

    def copy(self, I, st, c):
        ad, v = self.at(I, st, c)
        if v.op == 'cod' and v.a[2] == 'read':
            return self.drain(I, st, v, I.deref_addr(c.args[1]))
        return NotImplemented

    def overrides(self):
        o = {'std::io::Write::write_all': self.write(True), 'std::io::Write::write': self.write(False), 'std::io::Write::flush': self.flush,
             'std::io::Read::read_to_end': self.read_to_end, 'std::io::copy': self.copy}
        for k, n in KINDS.items():
            for side in ('read', 'write'):
                for way, s in (('enc', 'Encoder'), ('dec', 'Decoder')):
                    for m in ('', 'Multi') if n == 'Gz' and way == 'dec' else ('',):
                        t = f'{FL}{side}::{m}{n}{s}'
                        o[f'{t}::new'] = self.new(k, way, side)
                        o[f'{t}::finish'] = self.finish(True)
                        o[f'{t}::try_finish'] = lambda I, st, c: NotImplemented
        for mod, k in (('gz', 'gzip'), ('deflate', 'deflate'), ('zlib', 'zlib')):     # where the types really live
            n = KINDS[k]
            for side in ('read', 'write'):
                for way, s in (('enc', 'Encoder'), ('dec', 'Decoder')):
                    t = f'{FL}{mod}::{side}::{n}{s}'
                    o[f'{t}::new'] = self.new(k, way, side)
                    o[f'{t}::finish'] = self.finish(True)
        return o


def p60(ck):
    ck.rule('each compressor gets all of the data exactly once, at the level asked for, and hands out what it makes of it only when it was completed; each decompressor hands out all that the data decodes to; '
            'a failure of any step is returned as an error')
    n = 0
    for kind in KINDS:
        for way, f in (('enc', f'{CMP}::{kind}'), ('dec', f'{CMP}::un_{kind}')):
            w = ck.sp(f)
            for name, data in (('any data', A('data')), ('no data', Str(''))):
                def args(I, st):
                    return [data, A('level')] if way == 'enc' else [data]
                ps = ck.run(f, args, segs=True, nojoin=True, keep=lambda x: False, overrides=Codec().overrides())
                good = bad = 0
                for p in ps:
                    n += 1
                    r = deep(p.I, p.st, p.ret)
                    v = p.I.variant_of(p.st, r)
                    failed = any(x.op == 'ioerr' for x in subterms(r))
                    if v == 'Ok':
                        good += 1
                        x = deep(p.I, p.st, fld(r, ('as', 'Ok'), '0'))
                        want = T('coded' if way == 'enc' else 'decoded', kind, T('seq', data), A('level') if way == 'enc' else UNIT)
                        if x.op == want.op:      # writing nothing changes nothing
                            x = T(x.op, x.a[0], T('seq', *[y for y in x.a[1].a if y is not Str('')]), x.a[2])
                        if data is Str(''):
                            want = T(want.op, want.a[0], T('seq'), want.a[2])
                        ck.ob(x is want, f'{kind}:{way}:value', w, f'for {name} the result is {x!r}, not {want!r}')
                    else:
                        bad += 1
                        ck.ob(v == 'Err', f'{kind}:{way}:result', w, f'for {name} the outcome is {r!r}')
                ck.ob(good >= 1, f'{kind}:{way}:none', w, f'for {name} there is no result')
                ck.ob(bad >= 1, f'{kind}:{way}:error', w, f'for {name} a failing {"compressor" if way == "enc" else "decompressor"} is not reported')
    ck.floor('outcomes of compressing and decompressing', n, 12)


HX, B6 = 'utils::cryptos::hex::', 'utils::cryptos::base64::'


def bytes_of(I, st, v):
    """The contents behind any number of references"""
    v = deep(I, st, v)
    while v.op in ('ref', 'asbytes'):
        v = deep(I, st, I.read(st, I.deref_addr(v)) if v.op == 'ref' else v.a[0])
    return v


def p61(ck):
    ck.rule('every form of encoding and decoding gives all of its input, and nothing else, to the coding it is named after; text that does not decode is an error')

    def enc(k):
        return lambda I, st, c: [(st, T('text', k, bytes_of(I, st, c.args[0])))]

    def dec(k):
        return lambda I, st, c: fork(st, T('bytes', k, bytes_of(I, st, c.args[0])), T('coderr', k))
    ov = {'hex::encode': enc('hex'), 'hex::decode': dec('hex'), 'openssl::base64::encode_block': enc('base64'), 'openssl::base64::decode_block': dec('base64')}
    n = 0
    for k, m in (('hex', HX), ('base64', B6)):
        for what in ('encode', 'decode'):
            fs = [x for x, f in sorted(ck.p.raw_fns.items()) if (f.get('trait') or '').startswith(m) and f.get('name') == what]
            ck.ob(bool(fs), f'{k}:{what}:none', m, f'there is no way to {what} {k}')
            for f in fs:
                n += 1
                w = ck.sp(f)
                ty = re.search(r'<([^<>]*(?:<[^<>]*>)?)>>::', f)
                key = f'{k}:{what}:{ty.group(1) if ty else f}'
                for data in (A('data'), Str('')):
                    outs = ck.run(f, [data], segs=True, nojoin=True, keep=lambda x: False, overrides=ov)
                    vs = [(p, deep(p.I, p.st, p.ret)) for p in outs]
                    if what == 'encode':
                        ck.ob(bool(vs) and all(v is T('text', k, data) for _, v in vs), key, w, f'{data!r} is encoded as {[v for _, v in vs]!r}')
                        continue
                    kinds = {p.I.variant_of(p.st, v) for p, v in vs}
                    ck.ob(kinds == {'Ok', 'Err'}, key + ':error', w, f'decoding can end in {kinds!r} only, when the text may or may not be valid')
                    for p, v in vs:
                        if p.I.variant_of(p.st, v) == 'Ok':
                            x = deep(p.I, p.st, fld(v, ('as', 'Ok'), '0'))
                            ck.ob(x is T('bytes', k, data), key, w, f'{data!r} is decoded to {x!r}')
    ck.floor('forms of encoding and decoding', n, 9)


ER = 'utils::errors::entrances::'


def p63(ck):
    ck.rule('an error shows the message it was made with, followed by its cause when it has one; text made from bytes is those bytes, and bytes that are no text are an error')
    M, E = R('EM'), R('EC')
    shows = '<utils::errors::entrances::Error as std::fmt::Display>::fmt'
    n = 0
    for f, args, want in (('string', (S(M),), [M]), ('str', (S(M),), [M]), ('strs', (S(M), S(E)), [M, ': ', E]), ('strings', (S(M), S(E)), [M, ': ', E]), ('err', (S(E),), [E])):
        fn = f'{ER}Errs::{f}'
        for p, v in call(ck, fn, *args):
            n += 1
            t = shown_as(ck, shows, v)
            ck.ob(t is S(*want), f'shown:{f}', ck.sp(fn), f'the error made of {args!r} shows {t!r}')
    ck.floor('ways to make an error', n, 5)
    f = 'utils::strings::Strings::from_utf8'
    kinds = set()
    for data in (A('data'), Str('')):
        for p in ck.run(f, [data], nojoin=True, segs=True, keep=lambda x: False, overrides={'std::string::String::from_utf8': lambda I, st, c: fork(st, c.args[0], T('noutf8', c.args[0]))}):
            v = deep(p.I, p.st, p.ret)
            k = p.I.variant_of(p.st, v)
            kinds.add(k)
            if k == 'Ok':
                ck.ob(deep(p.I, p.st, fld(v, ('as', 'Ok'), '0')) is data, 'text', ck.sp(f), f'the text made of {data!r} is {v!r}')
    ck.ob(kinds == {'Ok', 'Err'}, 'text:error', ck.sp(f), f'making text of bytes ends in {kinds!r}')


TM = 'utils::time::Time'
NS = {'weeks': 604800 * 10 ** 9, 'days': 86400 * 10 ** 9, 'hours': 3600 * 10 ** 9, 'minutes': 60 * 10 ** 9, 'seconds': 10 ** 9, 'milliseconds': 10 ** 6, 'microseconds': 10 ** 3, 'nanoseconds': 1}
G = 10 ** 9
MULT = {'Mul': 1, 'MulWithOverflow': 1, 'MulUnchecked': 1}


def lin(t, k=1, out=None):
    """A number as a sum of multiples of unknowns: {unknown: factor}, constants under None"""
    out = {} if out is None else out
    if is_c(t, 'int'):
        out[None] = out.get(None, 0) + k * t.a[1]
    elif t.op == 'ns':
        for x, f in t.a:
            out[x] = out.get(x, 0) + k * f
    elif t.op == 'cast':
        lin(t.a[-1] if isinstance(t.a[-1], T) else t.a[0], k, out)
    elif t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        lin(t.a[1], k, out)
        lin(t.a[2], k if t.a[0] == 'Add' else -k, out)
    elif t.op == 'bin' and t.a[0] == 'Mul' and (is_c(t.a[1], 'int') or is_c(t.a[2], 'int')):
        a, b = (t.a[1], t.a[2]) if is_c(t.a[1], 'int') else (t.a[2], t.a[1])
        lin(b, k * a.a[1], out)
    elif t.op == 'un' and t.a[0] == 'Neg':
        lin(t.a[1], -k, out)
    elif t.op == 'bin' and t.a[0] == 'Div' and is_c(t.a[2], 'int') and t.a[2].a[1] > 0:
        d = quot(lin(t.a[1]), t.a[2].a[1])
        for x, f in d.items():
            out[x] = out.get(x, 0) + k * f
    else:
        out[t] = out.get(t, 0) + k
    return {x: f for x, f in out.items() if f} if out is not None else out


def ns(d):
    return T('ns', *sorted(((x, f) for x, f in d.items() if f), key=repr))


def minus(a, b):
    d = dict(a)
    for x, f in b.items():
        d[x] = d.get(x, 0) - f
    return {x: f for x, f in d.items() if f}


def times(d, k):
    return {x: f * k for x, f in d.items() if f * k}


def quot(d, u):
    """Whole number of u in d, towards zero"""
    if not d or u == 1:
        return dict(d)
    rest = {x: f for x, f in d.items() if f % u}
    if not rest:
        return {x: f // u for x, f in d.items()}
    if set(rest) == {None} and len(d) == 1:
        return {None: abs(d[None]) // u * (1 if d[None] > 0 else -1)}
    if len(rest) == 1 and FRAC in rest and rest[FRAC] == 1 and u == G:     # a fraction of a second, of the same sign as the whole
        return {x: f // u for x, f in d.items() if x is not FRAC}
    if len(d) == 1:
        (x, f), = d.items()
        if f == 1 and x is not None and x.op == 'div':     # a quotient of a quotient
            return {T('div', x.a[0], x.a[1] * u): 1}
        if f == 1 or u % f:
            return {T('div', ns(d), u): 1}
        return {T('div', ns({x: 1}), u // f): 1}
    return {T('div', ns(d), u): 1}


FRAC = T('fraction')


class Span:
    """Durations and dates as sums of multiples of unknowns, in nanoseconds. sign: of the fraction of a second"""

    def __init__(self, sign=0):
        self.sign = sign

    def val(self, I, st, v):
        v = deep(I, st, v)
        while v.op == 'ref':
            v = deep(I, st, I.read(st, I.deref_addr(v)))
        return v

    def lin(self, I, st, v):
        return lin(self.val(I, st, v))

    def make(self, u):
        return lambda I, st, c: [(st, ns(times(self.lin(I, st, c.args[0]), u)))]

    def count(self, u, opt=False):
        def h(I, st, c):
            v = self.val(I, st, c.args[0])
            if v.op not in ('ns', 'dt'):
                return NotImplemented
            q = num_of(quot(lin(v if v.op == 'ns' else v.a[0]), u))
            if not opt:
                return [(st, q)]
            return [(st.copy(), wire_some(q)), (st.copy(), NONE)]
        return h

    def sum(self, k, assign=False, checked=False):
        def h(I, st, c):
            a, b = self.val(I, st, c.args[0]), self.val(I, st, c.args[1])
            if a.op not in ('ns', 'dt') or b.op not in ('ns', 'dt'):
                return NotImplemented
            d = dict(lin(a if a.op == 'ns' else a.a[0]))
            lin(b if b.op == 'ns' else b.a[0], k, d)
            v = ns(d)
            if a.op == 'dt' and b.op == 'ns':
                v = T('dt', v)
            if assign:
                st = st.copy()
                I.write(st, I.deref_addr(c.args[0]), v)
                return [(st, UNIT)]
            if checked:
                return [(st.copy(), wire_some(v)), (st.copy(), NONE)]
            return [(st, v)]
        return h

    def cmp(self, op):
        def h(I, st, c):
            a, b = self.val(I, st, c.args[0]), self.val(I, st, c.args[1])
            if a.op != 'ns' or b.op != 'ns':
                return NotImplemented
            s = self.sign_of(minus(lin(a), lin(b)))
            if s is None:
                return NotImplemented
            return [(st, Bool({'lt': s < 0, 'le': s <= 0, 'gt': s > 0, 'ge': s >= 0, 'eq': s == 0, 'ne': s != 0}[op]))]
        return h

    def sign_of(self, d):
        if not d:
            return 0
        if set(d) == {None}:
            return 1 if d[None] > 0 else -1
        if set(d) == {FRAC}:
            return self.sign * (1 if d[FRAC] > 0 else -1)
        return None

    def parse(self, I, st, c):
        a, b = bytes_of(I, st, c.args[0]), bytes_of(I, st, c.args[1])
        return fork(st, T('dt', ns({T('whole', a, b): G, T('below', a, b): 1})), T('noparse', a, b))

    def part(self, whole):
        def h(I, st, c):
            v = self.val(I, st, c.args[0])
            if v.op != 'dt':
                return NotImplemented
            d = lin(v.a[0])
            lo = {x: f for x, f in d.items() if f % G}
            if any(x.op not in ('below', 'fraction') or f != 1 for x, f in lo.items() if x is not None) or len(lo) > 1 or self.sign < 0:
                return NotImplemented
            return [(st, num_of({x: f // G for x, f in d.items() if x not in lo}) if whole else num_of(lo))]
        return h

    def from_ts(self, opt):
        def h(I, st, c):
            d = times(self.lin(I, st, c.args[0]), G)
            lin(self.val(I, st, c.args[1]), 1, d)
            v = T('dt', ns(d))
            return [(st, v)] if not opt else [(st.copy(), wire_some(v)), (st.copy(), NONE)]
        return h

    def format(self, I, st, c):
        v = self.val(I, st, c.args[0])
        if v.op != 'dt':
            return NotImplemented
        return [(st, T('formatted', v.a[0], bytes_of(I, st, c.args[1])))]

    def overrides(self):
        o = {}
        for td in ('chrono::TimeDelta', 'chrono::Duration', 'time::Duration'):
            for u, k in NS.items():
                o[f'{td}::{u}'] = self.make(k)
                o[f'{td}::num_{u}'] = self.count(k, u in ('microseconds', 'nanoseconds'))
            o[f'{td}::zero'] = lambda I, st, c: [(st, ns({}))]
            o[f'{td}::checked_add'] = self.sum(1, checked=True)
            o[f'{td}::checked_sub'] = self.sum(-1, checked=True)
        for n, k in (('Add', 1), ('Sub', -1)):
            o[f'std::ops::{n}::{n.lower()}'] = self.sum(k)
            o[f'std::ops::{n}Assign::{n.lower()}_assign'] = self.sum(k, assign=True)
        for op in ('lt', 'le', 'gt', 'ge'):
            o[f'std::cmp::PartialOrd::{op}'] = self.cmp(op)
        for op in ('eq', 'ne'):
            o[f'std::cmp::PartialEq::{op}'] = self.cmp(op)
        N = 'chrono::NaiveDateTime::'
        o.update({N + 'parse_from_str': self.parse, N + 'timestamp': self.part(True), N + 'timestamp_subsec_nanos': self.part(False), N + 'timestamp_nanos': self.count(1),
                  N + 'from_timestamp': self.from_ts(False), N + 'from_timestamp_opt': self.from_ts(True), N + 'format': self.format, N + 'signed_duration_since': self.sum(-1),
                  'chrono::DateTime::naive_local': lambda I, st, c: [(st, T('dt', ns({T('localnow'): 1})))] if self.val(I, st, c.args[0]) is T('clock', 'local') else NotImplemented,
                  'chrono::Local::now': lambda I, st, c: [(st, T('clock', 'local'))],
                  'chrono::Utc::now': lambda I, st, c: [(st, T('clock', 'utc'))]})
        return o


def num_of(d):
    if not d:
        return Int(0)
    if len(d) == 1:
        (x, f), = d.items()
        if x is None:
            return Int(f)
        if f == 1:
            return x
    return ns(d)


def wire_some(v):
    return T('agg', 'std::option::Option', 'Some', ('0',), (v,))


NONE = T('agg', 'std::option::Option', 'None', (), ())


def p62(ck):
    ck.rule('a time is exactly as many nanoseconds after 1970 as it was made of; each unit is converted, added and subtracted by its own length; formatting shows the second the time lies in, by the given pattern; '
            'parsing gives the date that was read with its fraction, or an error')

    def play(fn, args, st=None, sign=0, check=True):
        ps = ck.run(fn, args, st, segs=True, nojoin=True, keep=lambda x: False, overrides=Span(sign).overrides())
        if check:
            ck.ob(bool(ps), f'{fn.split("::")[-1]}:none', ck.sp(fn), f'{fn} has no result')
        return ps

    fields = [f['n'] for f in ck.p.adts[TM]['v'][0]['f']]

    def spanof(p, v):
        v = deep(p.I, p.st, v)
        return fld(v, 'duration') if 'duration' in fields else v

    def time(d):
        """A time so long after 1970, made by the public constructor"""
        ps = play(f'{TM}::from', [ns(d)])
        vs = {deep(p.I, p.st, p.ret) for p in ps}
        return vs.pop() if len(vs) == 1 else None

    def reads(v):
        ps = play(f'{TM}::duration', lambda I, st: [put(st, v)])
        vs = {deep(p.I, p.st, p.ret) for p in ps}
        return vs.pop() if len(vs) == 1 else None

    def put(st, v, n='t'):
        st.store[('X', n)] = v
        return T('ref', ('X', n), ())
    n = 0
    X = A('x')
    base = {A('t'): 1}
    t0 = time(base)
    ck.ob(t0 is not None and reads(t0) is ns(base), 'from', ck.sp(f'{TM}::from'), 'a time made of a duration does not give that duration back')
    if t0 is None:
        return
    for f, u in (('from_minutes', 'minutes'), ('from_secs', 'seconds'), ('from_milliseconds', 'milliseconds'), ('from_microseconds', 'microseconds'), ('from_nanoseconds', 'nanoseconds')):
        for p in play(f'{TM}::{f}', [X]):
            n += 1
            d = reads(deep(p.I, p.st, p.ret))
            ck.ob(d is ns({X: NS[u]}), f, ck.sp(f'{TM}::{f}'), f'{f}(x) is {d!r} nanoseconds')
    for p in play(f'{TM}::now', []):
        n += 1
        d = reads(deep(p.I, p.st, p.ret))
        ck.ob(d is ns({T('localnow'): 1}), 'now', ck.sp(f'{TM}::now'), f'now is {d!r}')
    for u, k in NS.items():
        f = f'{TM}::num_{u}'
        want = num_of(quot(base, k))
        got = set()
        for p in play(f, lambda I, st: [put(st, t0)]):
            n += 1
            v = deep(p.I, p.st, p.ret)
            if u in ('microseconds', 'nanoseconds'):
                kd = p.I.variant_of(p.st, v)
                got.add(kd)
                if kd != 'Some':
                    continue
                v = deep(p.I, p.st, fld(v, ('as', 'Some'), '0'))
            ck.ob(num_of(lin(v)) is want, f'num_{u}', ck.sp(f), f'num_{u} of t is {v!r}')
        ck.ob(u not in ('microseconds', 'nanoseconds') or got == {'Some', 'None'}, f'num_{u}:some', ck.sp(f), f'num_{u} gives {got!r} only, although the number may or may not be too large')
        for way, s in (('add', 1), ('sub', -1)):
            f = f'{TM}::{way}_{u}'
            for p in play(f, lambda I, st: [put(st, t0), X]):
                n += 1
                d = reads(deep(p.I, p.st, p.I.read(p.st, (('X', 't'), ()))))
                ck.ob(d is ns({A('t'): 1, X: s * k}), f'{way}_{u}', ck.sp(f), f't.{way}_{u}(x) makes {d!r} of t')
    for way, s in (('add', 1), ('sub', -1)):
        f = f'{TM}::{way}'
        for p in play(f, lambda I, st: [put(st, t0), ns({X: 1})]):
            n += 1
            d = reads(deep(p.I, p.st, p.I.read(p.st, (('X', 't'), ()))))
            ck.ob(d is ns({A('t'): 1, X: s}), way, ck.sp(f), f't.{way}(x) makes {d!r} of t')
    f = f'{TM}::parse_from_str'
    kinds = set()
    for p in play(f, [A('s'), A('fmt')]):
        n += 1
        v = deep(p.I, p.st, p.ret)
        k = p.I.variant_of(p.st, v)
        kinds.add(k)
        if k == 'Ok':
            d = reads(deep(p.I, p.st, fld(v, ('as', 'Ok'), '0')))
            ck.ob(d is ns({T('whole', A('s'), A('fmt')): G, T('below', A('s'), A('fmt')): 1}), 'parse', ck.sp(f), f'the date read is taken as {d!r}')
    ck.ob(kinds == {'Ok', 'Err'}, 'parse:error', ck.sp(f), f'parsing ends in {kinds!r} only')
    for sign in (-1, 0, 1):
        d = {A('sec'): G}
        if sign:
            d[FRAC] = 1
        t = time(d)
        want = {A('sec'): G}
        if sign < 0:
            want[None] = -G
        for f, args, pat in (('format', lambda I, st: [put(st, t), A('fmt')], A('fmt')), ('format_string', lambda I, st: [put(st, t), A('fmt')], A('fmt')), ('format_data', [t, A('fmt')], A('fmt')),
                             ('to_string', lambda I, st: [put(st, t)], Str('%Y-%m-%d %H:%M:%S'))):
            for p in play(f'{TM}::{f}', args, sign=sign):
                n += 1
                v = deep(p.I, p.st, p.ret)
                while v.op == 'tostr':
                    v = deep(p.I, p.st, v.a[0])
                ok = v.op == 'formatted' and v.a[1] is pat and v.a[0] is ns(want)
                ck.ob(ok, f'{f}:{sign}', ck.sp(f'{TM}::{f}'), f'a time {"before" if sign < 0 else "after"} 1970 {"with a" if sign else "without"} fraction of a second is shown as {v!r}, by the pattern {pat!r}')
    ck.floor('conversions of times', n, 45)


LG, L4 = 'utils::log::LogModule', 'log4rs::'
SETUPS = ('X', 'configs')


class Logging:
    """The logging library's builders as records of what they were told."""

    def __init__(self, prog):
        self.paths = set()
        for f in prog.raw_fns.values():
            for b in f['blocks'] or []:
                t = b['t']
                if t.get('k') == 'call' and t['f'].get('path'):
                    for x in (t['f']['path'], t['f'].get('r') or ''):
                        if canon(x).startswith(L4):
                            self.paths.add(canon(x))

    def rec(self, path):
        last = path.split('::')[-1]
        res = path.endswith(('FixedWindowRollerBuilder::build', 'RollingFileAppenderBuilder::build', 'ConfigBuilder::build', 'init_config'))

        def h(I, st, c):
            args = [deep(I, st, a) for a in c.args]
            v = T('lg', path.split('::')[-2] + '::' + last, *args)
            if last == 'set_config':
                st = st.copy()
                st.store[SETUPS] = T('seq', *st.store.get(SETUPS, T('seq')).a, args[1])
                return [(st, UNIT)]
            return [(st, wire.okv(v) if res else v)]
        return h

    def overrides(self):
        return {p: self.rec(p) for p in self.paths}


def chain(t):
    """A builder call chain: [(method, arguments)], first to last"""
    r = []
    while t.op == 'lg':
        ty, m = t.a[0].split('::')
        r.append((m, ty, t.a[1:]))
        if m in ('builder', 'new') or len(t.a) < 2:
            break
        r[-1] = (m, ty, t.a[2:])
        t = t.a[1]
    return r[::-1]


def items(t):
    return list(t.a) if t.op in ('seq', 'arr') else None


def unbox(t):
    while t.op == 'box' or t.op == 'agg' and 'Box' in t.a[0]:
        t = t.a[0] if t.op == 'box' else t.a[3][0]
    return t


class Odd(Exception):
    pass


def file_of(t):
    """A rolling file: (append, path, size limit, pattern of old files, their number)"""
    ap = path = pol = None
    for m, ty, a in chain(unbox(t)):
        if m == 'append':
            ap = a[0]
        elif m == 'build':
            path, pol = a
        elif m not in ('builder', 'encoder'):
            raise Odd(f'{ty}::{m}')
    if pol is None:
        return None
    pc = chain(unbox(pol))
    if pc[0][1] != 'CompoundPolicy':
        raise Odd(pc[0][1])
    trig, roll = (unbox(x) for x in pc[0][2])
    tc = chain(trig)
    if tc[0][1] != 'SizeTrigger':
        raise Odd(tc[0][1])
    rc = chain(roll)
    if rc[-1][0] != 'build' or rc[0][1] != 'FixedWindowRoller':
        raise Odd(rc[0][1])
    return ap, path, tc[0][2][0], rc[-1][2][0], rc[-1][2][1]


def setup_of(t):
    """A logging configuration: ({name: file or None}, [(package, level, additive, names)], root level, root names)"""
    apps, logs = [], []
    root = None
    for m, ty, a in chain(t):
        if m in ('appender', 'logger'):
            (apps if m == 'appender' else logs).append(a[0])
        elif m in ('appenders', 'loggers'):
            l = items(a[0])
            if l is None:
                raise Odd(repr(a[0])[:80])
            (apps if m == 'appenders' else logs).extend(l)
        elif m == 'build':
            root = a[0]
        elif m != 'builder':
            raise Odd(m)
    files = []
    for x in apps:
        cs = chain(x)
        m, ty, a = cs[-1]
        if m != 'build' or len(cs) != 2:
            raise Odd(repr(cs)[:120])
        w = unbox(a[1])
        files.append((a[0], file_of(w) if 'RollingFileAppenderBuilder' in w.a[0] else None))
    ls = []
    for x in logs:
        names, add, pkg, lv = [], FALSE, None, None     # the library's loggers are additive unless told otherwise
        add = TRUE
        for m, ty, a in chain(x):
            if m == 'appender':
                names.append(a[0])
            elif m == 'additive':
                add = a[0]
            elif m == 'build':
                pkg, lv = a
            elif m != 'builder':
                raise Odd(m)
        ls.append((pkg, lv, add, names))
    names, lv = [], None
    for m, ty, a in chain(root):
        if m == 'appender':
            names.append(a[0])
        elif m == 'build':
            lv = a[0]
        elif m != 'builder':
            raise Odd(m)
    return files, ls, lv, names


def p64(ck):
    ck.rule('the log goes to <dir>/<name>.log, which is appended to and rolled at the size given, keeping the number of files given next to it; every module logs to its own file, at its own level, additively or not as asked, '
            'and takes the directory, size and number it leaves open from the main module; the server logs as set_log says')
    FLD = [f['n'] for f in ck.p.adts[LG]['v'][0]['f']]
    MB = 1048576
    lib = Logging(ck.p)
    n = 0

    def module(i, d=True, size=True, count=True):
        v = {'name': S(R(f'LN{i}')), 'pkg': S(R(f'LP{i}')), 'level': A(f'level{i}'), 'additive': A(f'additive{i}'), 'dir': S(R(f'LD{i}')) if d else Str(''),
             'file_max_size': A(f'size{i}') if size is True else Int(size), 'file_max_count': A(f'count{i}') if count is True else Int(count)}
        return v, T('agg', LG, LG.split('::')[-1], tuple(FLD), tuple(v[f] for f in FLD))

    def judge(key, w, conf, main, mods, name=True):
        nonlocal n
        n += 1
        try:
            files, logs, lv, names = setup_of(conf)
        except Odd as e:
            ck.ob(False, f'{key}:odd', w, f'the logging set-up uses {e}, which the rule does not know')
            return
        ck.ob(lv is main['level'], f'{key}:level', w, f'the main log has the level {lv!r}')
        want = [main] + mods
        if not name:
            fs = [nm for nm, f in files if f is not None]
            if ck.ob(len(fs) == 1 and len(names) >= 1 and fs[0] in names, f'{key}:files', w, f'the log goes to {files!r}'):
                main = dict(main, name=fs[0])
            want = [main]
        ck.ob(sorted(map(repr, (nm for nm, f in files if f is not None))) == sorted(repr(m['name']) for m in want), f'{key}:files', w, f'files are kept for {files!r}, wanted for {[m["name"] for m in want]!r}')
        ck.ob(main['name'] in names and not any(m['name'] in names for m in mods), f'{key}:main', w, f'the main log goes to {names!r}')
        for m in want:
            d = m['dir'] if m['dir'] is not Str('') else main['dir']
            size = m['file_max_size'] if m['file_max_size'] is not Int(0) else main['file_max_size']
            cnt = m['file_max_count'] if m['file_max_count'] is not Int(0) else main['file_max_count']
            for nm, f in files:
                if nm is not m['name'] or f is None:
                    continue
                ap, path, sz, pat, k = f
                ck.ob(ap is TRUE or ap is None, f'{key}:append', w, 'the log of an earlier run is overwritten')
                ck.ob(path is S(d, '/', m['name'], '.log'), f'{key}:path', w, f'the log file is {path!r}, the directory {d!r} and the name {m["name"]!r}')
                ck.ob(pat is S(d, '/', m['name'], '-log-{}.log'), f'{key}:old', w, f'old log files are {pat!r}')
                ck.ob(lin(sz) == times(lin(size), MB), f'{key}:size', w, f'the log is rolled at {sz!r} bytes, not {size!r} MB')
                ck.ob(k is cnt, f'{key}:count', w, f'{k!r} old files are kept, not {cnt!r}')
        got = {repr((p, l, a, sorted(map(repr, ns)))) for p, l, a, ns in logs}
        need = {repr((m['pkg'], m['level'], m['additive'], [repr(m['name'])])) for m in mods}
        ck.ob(got == need and len(logs) == len(mods), f'{key}:modules', w, f'the loggers are {logs!r}, wanted {need!r}')

    def positive(st, *names):
        for x in names:
            st.facts[T('bin', 'Lt', Int(0), A(x))] = True
            st.facts[T('bin', 'Lt', A(x), Int(1))] = False
            st.facts[T('bin', 'Eq', A(x), Int(0))] = False
            st.facts[T('bin', 'Le', A(x), Int(0))] = False
        return st
    f = f'{LG}::config_log'
    forms = [()] + [((d, s, k),) for d in (True, False) for s in (True, 0, 1) for k in (True, 0, 1)] + [((True, True, True), (False, 0, 0)), ((False, 0, 0), (True, True, True)), ((False, 0, True), (True, 1, 0))]
    for form in forms:
        main, mt = module(0)
        ms = [module(i + 1, *x) for i, x in enumerate(form)]

        def args(I, st):
            st.store[('X', 'me')] = mt
            for i in range(3):
                positive(st, f'size{i}', f'count{i}')
            return [T('ref', ('X', 'me'), ()), T('seq', *[t for _, t in ms])]
        ps = ck.run(f, args, segs=True, nojoin=True, keep=lambda x: False, overrides=lib.overrides())
        ck.ob(bool(ps), 'none', ck.sp(f), 'the log cannot be configured')
        for p in ps:
            cs = p.st.store.get(SETUPS, T('seq')).a
            if ck.ob(len(cs) == 1, 'set', ck.sp(f), f'{len(cs)} configurations are set'):
                judge(f'modules{len(form)}', ck.sp(f), cs[0], main, [v for v, _ in ms])
    H = 'server::server::HttpServer::'
    for start in (T('agg', 'std::option::Option', 'None', (), ()), None):
        st = absint.State({}, {}, absint.NIL)
        sf = [x['n'] for x in ck.p.adts[H[:-2]]['v'][0]['f']]
        st.store[('X', 'srv')] = T('agg', H[:-2], 'HttpServer', tuple(sf), tuple(start if x == 'module' and start is not None else A(x) for x in sf))
        SR = T('ref', ('X', 'srv'), ())
        for q in ck.run(H + 'set_log', [SR, A('level'), S(R('LD0')), A('size0'), A('count0')], st, segs=True, nojoin=True, keep=lambda x: False):
            s2 = positive(q.st.copy(), 'size0', 'count0')
            for p in ck.run(H + 'log_init', [SR], s2, segs=True, nojoin=True, keep=lambda x: False, overrides=lib.overrides()):
                cs = p.st.store.get(SETUPS, T('seq')).a
                if ck.ob(len(cs) == 1, 'server:set', ck.sp(H + 'log_init'), f'{len(cs)} configurations are set'):
                    judge('server', ck.sp(H + 'set_log'), cs[0], dict(level=A('level'), dir=S(R('LD0')), file_max_size=A('size0'), file_max_count=A('count0'), name=None), [], name=False)
    st = absint.State({}, {}, absint.NIL)
    st.store[('X', 'srv')] = T('agg', H[:-2], 'HttpServer', tuple(sf), tuple(NONE if x == 'module' else A(x) for x in sf))
    for p in ck.run(H + 'log_init', [SR], st, segs=True, nojoin=True, keep=lambda x: False, overrides=lib.overrides()):
        cs = p.st.store.get(SETUPS, T('seq')).a
        if ck.ob(len(cs) == 1, 'default:set', ck.sp(H + 'log_init'), f'{len(cs)} configurations are set'):
            try:
                lv = setup_of(cs[0])[2]
            except Odd:
                lv = None
            judge('default', ck.sp(H + 'log_init'), cs[0], dict(level=lv, dir=Str('tmp'), file_max_size=Int(1024), file_max_count=Int(7), name=None), [], name=False)
    # the settings are in force before anything is accepted
    L = H + 'listener'
    CONN, POOLX, CREATE = 'server::server::handle_connection', 'utils::concurrent::thread_pool::ThreadPool::execute', 'utils::concurrent::thread_pool::Builder::create'
    backs = []
    st = absint.State({}, {}, absint.NIL)
    st.store[('X', 'srv')] = T('agg', H[:-2], 'HttpServer', tuple(sf), tuple(A(x) for x in sf))
    ps = ck.run(L, [SR, A('addr')], st, segs=True, nojoin=True, opaque={CONN, CREATE, POOLX, '<utils::concurrent::thread_pool::ThreadPool as std::ops::Drop>::drop'}, overrides=lib.overrides(),
                keep=lambda x: x == 'accept' or x.startswith('std::net::TcpListener'), on_back=lambda f, h, s: backs.append((f, h, s)))
    k = 0
    for f_, h, s in backs:
        if f_ != L:
            continue
        k += 1
        ck.ob(len(s.store.get(SETUPS, T('seq')).a) == 1, 'server:used', ck.sp(L), 'connections are accepted before the log settings of the server are in force, or these are replaced while it runs')
    ck.floor('accept rounds', k, 1)
    ck.floor('logging configurations', n, 20)


PROPS = {'P60': p60, 'P61': p61, 'P62': p62, 'P63': p63, 'P64': p64}
