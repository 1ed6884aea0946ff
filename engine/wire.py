"""The peer of a connection, as an abstract value: what it sends (segmented strings, in given pieces) and the record of what was written to it."""
from terms import *
import models
import seg
from seg import R, S

IN, OUT, READS = ('X', 'in'), ('X', 'out'), ('X', 'reads')
OKU = T('agg', 'std::result::Result', 'Ok', ('0',), (UNIT,))


def okv(v):
    return T('agg', 'std::result::Result', 'Ok', ('0',), (v,))


def errv(v):
    return T('agg', 'std::result::Result', 'Err', ('0',), (v,))


def asks_for(I, st, ub, x):
    """Does a read of at most ub bytes certainly read no more than x?"""
    if ub is None:
        return False
    if ub.op == 'call' and ub.a[0].endswith('::min'):
        return any(asks_for(I, st, u, x) for u in ub.a[1])
    return I.truth(st, I.binop(st, 'Lt', seg.length(x), ub)) is False


def num(t):
    """The decimal text of a number"""
    return Str(str(t.a[1])) if is_c(t, 'int') else R('num' + repr(t), ''.join(chr(i) for i in range(256) if not chr(i).isdigit() or i > 127))


def text(v):
    p = seg.parts(v)
    if p is not None:
        return p
    if v.op == 'cat':
        return [y for x in v.a for y in text(x)]
    return [num(v.a[0])] if v.op == 'tostr' else [T('blob', v)]


def local(I, c):
    """Does this call write to something other than the connection?"""
    t = models.tname(I, c.tys[0])
    return t is not None and bool(t.adt) and t.adt.startswith(('bytes::', 'std::vec::', 'flate2::', 'std::fs::', 'std::io::Cursor', 'std::io::cursor'))


def failing(w, h):
    """Writes to the connection go to h, others are as usual"""
    o = w.overrides()
    return {k: (lambda I, st, c, k=k: o[k](I, st, c) if local(I, c) else h(I, st, c)) for k in ('std::io::Write::write_all', 'std::io::Write::write')}


class Wire:
    """chunks: what successive reads deliver; afterwards the end of the stream or, with fail, an error. A chunk (x, y) is x if the read
    asks for no more than x, otherwise y comes with it (the bytes that follow on the connection)."""

    def __init__(self, chunks, fail=False):
        self.chunks = [S(c) if isinstance(c, str) else c for c in chunks]
        self.over = S('')
        self.fail = fail

    def next(self, st):
        k = st.store.get(READS, Int(0)).a[1]
        st.store[READS] = Int(k + 1)
        return self.chunks[k] if k < len(self.chunks) else None

    def read(self, I, st, c):
        st = st.copy()
        d = self.next(st)
        if d is None:
            if self.fail:
                return [(st, errv(T('ioerr', 'read')))]
            return [(st, okv(Int(0)))]
        ad = I.deref_addr(c.args[1])
        ub = None
        if ad[1] and isinstance(ad[1][-1], tuple) and ad[1][-1][0] == 'pre':
            ub, ad = ad[1][-1][1], (ad[0], ad[1][:-1])
        if isinstance(d, tuple):
            d = d[0] if asks_for(I, st, ub, d[0]) else S(*d)
        I.write(st, ad, d)
        return [(st, okv(seg.length(d)))]

    def read_to_end(self, I, st, c):
        st = st.copy()
        all_ = []
        while True:
            d = self.next(st)
            if d is None:
                break
            all_.append(S(*d) if isinstance(d, tuple) else d)
        ad = I.deref_addr(c.args[1])
        old = I.strip(st, I.read(st, ad))
        v = S(*(seg.parts(old) or []), *all_)
        I.write(st, ad, v)
        if self.fail:  # what came before the error is there
            return [(st, errv(T('ioerr', 'read')))]
        return [(st, okv(seg.length(S(*all_))))]

    def write(self, whole):
        def h(I, st, c):
            if local(I, c):
                t = models.tname(I, c.tys[0])
                v = I.strip(st, c.args[1])
                ad = I.deref_addr(c.args[0])
                while True:
                    o = I.read(st, ad)
                    if o.op != 'ref':
                        break
                    ad = I.deref_addr(o)
                o = seg.parts(o)
                if o is None or seg.parts(v) is None or t.adt.startswith('flate2::'):
                    return NotImplemented
                st = st.copy()
                I.write(st, ad, S(*o, *seg.parts(v)))
                return [(st, OKU if whole else okv(seg.length(v)))]
            st = st.copy()
            v = I.strip(st, c.args[1])
            old = st.store.get(OUT, Str(''))
            st.store[OUT] = S(*(seg.parts(old) or [old]), *text(v))
            if not whole:
                n = T('written', v)
                return [(st, okv(n))]
            return [(st, OKU)]
        return h

    def flush(self, I, st, c):
        st = st.copy()
        st.store[('X', 'flushed')] = st.store.get(OUT, Str(''))
        return [(st, OKU)]

    def overrides(self):
        return {'std::io::Read::read': self.read, 'std::io::Read::read_to_end': self.read_to_end,
                'std::io::Write::write_all': self.write(True), 'std::io::Write::write': self.write(False), 'std::io::Write::flush': self.flush}


def out(st):
    return st.store.get(OUT, Str(''))


def flushed(st):
    return st.store.get(('X', 'flushed'))
