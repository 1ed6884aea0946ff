"""End-to-end analysis of request parsing: what a peer sends (segmented strings) against what the accessors and the wire say."""
from ck import *
import seg
import wire
from seg import R, S

RQ = 'http::requester::Requester'
FROM = f'{RQ}::from'
FETCH = 'server::node::Root::fetch'
REF = T('ref', ('X', 'req'), ())


class Got:
    """One abstract outcome of reading a request: the accepted request (ok) or the error, and everything written to the peer."""

    def __init__(self, ck, p):
        self.ck, self.p, self.I, self.st = ck, p, p.I, p.st
        self.var = p.I.variant_of(p.st, p.ret)
        self.ok = self.var == 'Ok'
        self.out = wire.out(p.st)
        self.sent = wire.flushed(p.st)
        self.fetches = [e for e in p.evs() if e.a[0] == FETCH]
        self.found = [p.I.variant_of(p.st, eret(e)) for e in self.fetches]
        if self.ok:
            t = p.I.strip(p.st, fld(p.ret, ('as', 'Ok'), '0'))
            self.t = t
            self.st = p.st.copy()
            self.st.store[('X', 'req')] = t.a[0] if t.op == 'tup' else project(t, '0')
            self.node, self.fields = project(t, '1'), project(t, '2')

    def all(self, st, name, *args, cls=RQ):
        """Outcomes of an accessor on the accepted request."""
        return [(s, deep(self.I, s, v)) for s, v in self.I.entry(self.ck.fn(f'{cls}::{name}'), [REF, *args], st.copy())]


def explore(ck, chunks, fail=False, ov=None, keep=(), st=None):
    w = wire.Wire(chunks, fail)
    o = w.overrides()
    o.update(ov or {})
    ks = set(keep) | {FETCH}
    ps = ck.run(FROM, None, st=st, segs=True, nojoin=True, keep=lambda x: x in ks, opaque=lambda x: x == FETCH, overrides=o)
    return [Got(ck, p) for p in ps]
