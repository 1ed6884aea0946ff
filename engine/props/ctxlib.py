"""The context a handler gets for an accepted request, and what it then does with it."""
from ck import *
from reqlib import *
import seg
import wire

CTX = 'server::context::Context'
CREF = T('ref', ('X', 'ctx'), ())
RQREF = T('ref', ('X', 'ctx'), ('requester',))


def context(ck, g, fields=None, compress=FALSE):
    """[state] with the context the server makes for the accepted request g"""
    req = g.I.read(g.st, (('X', 'req'), ()))
    out = []
    for s, v in g.I.entry(ck.fn(f'{CTX}::new'), [req, fields if fields is not None else g.fields, compress], g.st.copy()):
        s.store[('X', 'ctx')] = v
        out.append(s)
    return out


def do(ck, I, sts, name, *args, cls=CTX, ref=CREF):
    """Every outcome of a call on the context: [(state, result)]"""
    out = []
    for s in sts:
        for s2, v in I.entry(ck.fn(f'{cls}::{name}'), [ref, *args], s.copy()):
            out.append((s2, deep(I, s2, v)))
    return out


class Msg:
    """A message on the wire: start line, header lines, body (segmented); ok is False if it cannot be taken apart"""

    def __init__(self, t):
        self.ok = False
        ts = seg.toks(t)
        if ts is None:
            return
        lines, cur, i = [], [], 0
        while i < len(ts):
            x = ts[i]
            if x == '\r' and i + 1 < len(ts) and ts[i + 1] == '\n':
                i += 2
                if not cur:
                    break
                lines.append(seg.untoks(cur))
                cur = []
                continue
            if x in ('\r', '\n') or not isinstance(x, str) and not {'\r', '\n'} <= set(seg.seg(x).excl):
                return
            cur.append(x)
            i += 1
        else:
            return
        self.start = lines[0]
        self.body = seg.untoks(ts[i:])
        self.headers = []
        for l in lines[1:]:
            lt = seg.toks(l)
            k = next((k for k in range(len(lt)) if lt[k] == ':'), None)
            if k is None or lt[k + 1:k + 2] != (' ',) and lt[k + 1:k + 2] != [' ']:
                return
            self.headers.append((seg.untoks(lt[:k]), seg.untoks(lt[k + 2:])))
        self.ok = True

    def of(self, name):
        return [v for k, v in self.headers if is_c(k, 'str') and k.a[1].lower() == name.lower()]
