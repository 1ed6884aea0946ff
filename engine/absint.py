"""Path-sensitive abstract interpretation of MIR.

Domain: a store of locations -> hash-consed abstract values (constants, enum variants, aggregates, references, opaque
provenance terms), plus branch facts about opaque terms.  Calls to crate functions are inlined (context-sensitive),
library calls go through models, loops are run to a fixpoint with widening (values that change per iteration become a
fresh opaque term whose sources are remembered; small finite flags are split), and states that agree are joined.
Nothing is executed and no path is handed to a solver: every path of the flow graph is covered by the fixpoint.
"""
import heapq
import os
from mir import canon, Body
from terms import *


class Limit(Exception):
    pass


class State:
    __slots__ = ('store', 'facts', 'trace', 'held', 'ghost')

    def __init__(self, store, facts, trace, held=(), ghost=()):
        self.store = store
        self.facts = facts
        self.trace = trace
        self.held = held
        self.ghost = ghost

    def copy(self):
        return State(dict(self.store), dict(self.facts), self.trace, self.held, self.ghost)

    def key(self):
        return (self.trace, self.held, self.ghost, frozenset(self.store.items()))


NIL = T('tr0')


def seglen(v):
    import seg
    return seg.haslen(v)


def items_of(trace, upto=None):
    out = []
    while trace is not upto and trace.op == 'tr':
        out.append(trace.a[1])
        trace = trace.a[0]
    out.reverse()
    return out


class Call:
    __slots__ = ('path', 'args', 'tys', 'dty', 'site', 'fn', 'sp', 'f', 'chain', 'full')

    def copy(self):
        c = Call()
        for k in self.__slots__:
            if hasattr(self, k):
                setattr(c, k, getattr(self, k))
        return c


VALUE_OPS = {'agg', 'tup', 'arr', 'seq', 'c', 'cat', 'upd', 'clo', 'push', 'tostr', 'lossy', 'bytes', 'trim', 'lower',
             'upper', 'eff', 'run', 'segb', 'sub', 'fmt', 'insert', 'hv', 'guard', 'splitv', 'deref'}


class Interp:
    def __init__(self, prog, models, opaque=(), interest=None, max_depth=24, max_steps=400000, lock_havoc=True,
                 logs='fork', on_oblig=None, overrides=None, on_call=None, inline_recursive=False, zone=True):
        self.p = prog
        self.models = models
        self.opaque = opaque if callable(opaque) else (lambda n, s=frozenset(opaque): n in s)
        self.interest = interest or (lambda path: True)
        self.max_depth = max_depth
        self.steps = 0
        self.max_steps = max_steps
        self.lock_havoc = lock_havoc
        self.logs = logs
        self.on_oblig = on_oblig
        self.on_call = on_call
        self.overrides = overrides or {}
        self.loops = {}          # loop item -> list of body traces
        self.hsrc = {}           # havoc term -> set of source terms
        self.frames = {}
        self.panics = []         # (reason, state, fn, sp)
        self.visited = set()     # functions inlined
        self.sites = set()
        self.unmodelled = {}
        self.stat = {'states': 0, 'joins': 0}
        self.zone = zone
        self.calls_seen = set()
        self.on_panic = None
        self.on_back = None
        self.invs = {}           # havoc term -> upper bounds it is suspected to keep in its loop
        self.inv_bad = set()     # suspicions that turned out wrong (the analysis is then to be repeated without them)
        self.prove = lambda st, cond: self.truth(st, cond) is True
        self.unwinding = False
        self.nojoin = False      # keep paths with different branch facts apart
        self.poison = False
        self.segmode = False     # follow strings part by part (seg.py)
        self._faith = {}
        self._hasm = {}

    # ---------------------------------------------------------------- store
    def fid(self, chain):
        f = self.frames.get(chain)
        if f is None:
            f = len(self.frames)
            self.frames[chain] = f
        return f

    def default(self, base):
        if base[0] == 'H':
            t = base[1]
            if t.op in VALUE_OPS:
                return t
            return T('deref', t)
        if base[0] == 'L':
            return T('undef', base[1], base[2])
        if base[0] == 'P':
            return base[1]
        return T('init', base)

    def read(self, st, addr):
        base, path = addr
        v = st.store.get(base)
        if v is None:
            v = self.default(base)
        for s in path:
            v = project(v, s)
        return v

    def write(self, st, addr, x):
        base, path = addr
        if not path:
            st.store[base] = x
            return
        v = st.store.get(base)
        if v is None:
            v = self.default(base)
        st.store[base] = update(v, path, x)

    def deref_addr(self, v):
        if v.op == 'ref':
            return v.a
        if v.op == 'guard':
            return self.deref_addr(v.a[0])
        return (('H', v), ())

    def addr(self, st, fid, pl):
        base = ('L', fid, pl['l'])
        path = ()
        for e in pl['p']:
            k = e[0]
            if k == '*':
                base, path = self.deref_addr(self.read(st, (base, path)))
            elif k == 'f':
                if e[4] in ('std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull', 'std::mem::ManuallyDrop',
                            'std::mem::MaybeUninit', 'std::mem::MaybeDangling'):
                    continue
                path = path + (e[2],)
            elif k == 'v':
                path = path + (('as', e[2]),)
            elif k == 'i':
                path = path + (('idx', self.read(st, (('L', fid, e[1]), ()))),)
            elif k == 'ci':
                path = path + (('ci', e[1], e[2], e[3]),)
            elif k == 'ss':
                path = path + (('ss', e[1], e[2], e[3]),)
        return (base, path)

    def strip(self, st, v):
        n = 0
        while v.op == 'ref' and n < 8:
            v = self.read(st, v.a)
            n += 1
        return v

    def content(self, st, v, ty=None):
        """Value behind all reference layers of a `ty`-typed operand."""
        n = 0
        while ty is not None and ty.k in ('ref', 'ptr') and n < 8:
            inner = self.p.types[ty.args[0]]
            if v.op == 'ref':
                v = self.read(st, v.a)
            elif v.op == 'guard':
                v = self.read(st, self.deref_addr(v))
            elif inner.k == 'slice' or inner.s == 'str':
                return v
            else:
                v = self.read(st, (('H', v), ()))
            ty = inner
            n += 1
        return self.strip(st, v)

    def op_ty(self, body, o):
        if o['k'] in ('copy', 'move'):
            pl = o['pl']
            t = body.ty(pl['l'])
            for e in pl['p']:
                if e[0] == 'f':
                    t = self.p.types[e[3]]
                elif e[0] == '*':
                    t = self.p.types[t.args[0]] if t is not None and t.args else None
                elif e[0] == 'v':
                    pass
                elif e[0] in ('i', 'ci'):
                    t = self.p.types[t.args[0]] if t is not None and t.args else None
                else:
                    return None
            return t
        if 'ty' in o:
            return self.p.types[o['ty']]
        return None

    def const(self, o):
        if o['k'] == 'fn':
            if 'ctor' in o:
                return T('ctor', o['ctor'][0], o['ctor'][1])
            n = o['r'] if o.get('rlocal') else o['path']
            local = bool(o.get('rlocal') or (o['local'] and 'r' not in o))
            if not local and 'sig' in o:
                return T('fn', n, local, o.get('r', n), tuple(o['sig']))
            return T('fn', n, local)
        if o['k'] != 'const':
            return T('opaque', o['k'])
        ty = self.p.types[o['ty']]
        if 'str' in o:
            return Str(o['str'])
        if 'bytes' in o:
            try:
                return Str(bytes(o['bytes']).decode('utf8'))
            except UnicodeDecodeError:
                return C('bytes', bytes(o['bytes']))
        if 'bool' in o:
            return Bool(o['bool'])
        if 'char' in o:
            return C('char', o['char'])
        if 'int' in o and ty.k == 'prim':
            return Int(o['int'])
        if 'static' in o:
            return T('static', o['static'])
        if 'path' in o and o.get('local'):
            return self.eval_const(o['path'], o.get('promoted'))
        if 'fnptr' in o:
            return T('fn', o['fnptr'], True)
        if o.get('zst'):
            if ty.k == 'tuple' and not ty.args:
                return UNIT
            if ty.k == 'adt':
                a = self.p.adt(ty.adt)
                if a and a['kind'] == 'struct' and not a['v'][0]['f']:
                    return Agg(ty.adt, a['v'][0]['n'], (), ())
            if ty.k == 'closure':
                return T('clo', ty.raw['def'], ())
            return T('zst', ty.s)
        if 'path' in o:
            return T('const', canon(o['path']))
        if 'int' in o:
            # scalar-layout ADT constant (e.g. fieldless enum)
            a = self.p.adt(ty.adt) if ty.k == 'adt' else None
            if a and a['kind'] == 'enum':
                for v in a['v']:
                    if v['d'] == str(o['int']) and not v['f']:
                        return Agg(ty.adt, v['n'], (), ())
            return T('constval', ty.s, o['int'])
        return T('const', ty.s, o.get('ct', ''))

    _cc = None

    def eval_const(self, path, promoted):
        if self._cc is None:
            self._cc = {}
        k = (path, promoted)
        if k in self._cc:
            return self._cc[k]
        self._cc[k] = T('const', path)
        name = path if path in self.p.raw_fns else self.p.find(path)
        if name is None:
            return self._cc[k]
        try:
            body = self.p.body(name, promoted)
        except (KeyError, IndexError):
            return self._cc[k]
        chain = (('const', name, promoted),)
        st = State({}, {}, NIL)
        save = (self.interest, self.on_oblig, self.on_call)
        self.interest, self.on_oblig, self.on_call = (lambda p: False), None, None
        outs = self.run_body(body, chain, [], st)
        self.interest, self.on_oblig, self.on_call = save
        if len(outs) == 1:
            s2, v = outs[0]
            self._cc[k] = self.freeze(s2, v)
        return self._cc[k]

    def freeze(self, st, v):
        """Turn references into a constant body's frame into references to the constant's own content."""
        if v.op == 'ref':
            return T('ref', ('P', self.freeze(st, self.read(st, (v.a[0], ())))), v.a[1])
        if v.op == 'agg':
            return T('agg', v.a[0], v.a[1], v.a[2], tuple(self.freeze(st, x) for x in v.a[3]))
        if v.op in ('tup', 'arr', 'seq'):
            return T(v.op, *[self.freeze(st, x) for x in v.a])
        return v

    def operand(self, st, fid, o):
        if o['k'] in ('copy', 'move'):
            return self.read(st, self.addr(st, fid, o['pl']))
        return self.const(o)

    # ---------------------------------------------------------------- facts
    def known(self, st, t):
        """Constant python value of an opaque term on this path, or None."""
        return st.facts.get(t)

    def cmp_known(self, st, op, a, b):
        if is_c(a) and is_c(b):
            x, y = a.a[1], b.a[1]
            if a.a[0] in ('bytes',) and isinstance(y, str):
                y = y.encode()
            if b.a[0] in ('bytes',) and isinstance(x, str):
                x = x.encode()
            try:
                return {'Eq': x == y, 'Lt': x < y}[op]
            except TypeError:
                return None
        if op == 'Eq':
            if a is b and a.op != 'float':
                return True
            for x, y in ((a, b), (b, a)):
                if is_c(y):
                    k = st.facts.get(x)
                    if k is not None and not isinstance(k, frozenset):
                        return k == y.a[1]
                    ne = st.facts.get(('ne', x))
                    if ne and y.a[1] in ne:
                        return False
            if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and a.a[1] != b.a[1]:
                return False
            ca, cb = self.const_str(a), self.const_str(b)
            if ca is False or cb is False:
                pass
            elif a.op == 'cat' and is_c(b, 'str') and b.a[1] == '' and any(is_c(x, 'str') for x in a.a):
                return False
        if op == 'Lt' and self.zone:
            r = self.zone_lt(st, a, b)
            if r is not None:
                return r
        return None

    def const_str(self, a):
        return None

    def binop(self, st, op, a, b):
        if op in ('Ne', 'Le', 'Ge', 'Gt'):
            if op == 'Ne':
                return self.neg(self.binop(st, 'Eq', a, b))
            if op == 'Gt':
                return self.binop(st, 'Lt', b, a)
            if op == 'Le':
                return self.neg(self.binop(st, 'Lt', b, a))
            return self.neg(self.binop(st, 'Lt', a, b))
        if self.segmode:
            import seg
            r = seg.binop(self, st, op, a, b)
            if r is not None:
                return r
        if op in ('Eq', 'Lt'):
            r = self.cmp_known(st, op, a, b)
            if r is not None:
                return Bool(r)
            if op == 'Eq':
                if is_c(b, 'bool'):
                    return a if b.a[1] else self.neg(a)
                if is_c(a, 'bool'):
                    return b if a.a[1] else self.neg(b)
                if is_c(a) or (not is_c(b) and a.i > b.i):
                    a, b = b, a
            return T('bin', op, a, b)
        if is_c(a, 'int') and is_c(b, 'int'):
            x, y = a.a[1], b.a[1]
            try:
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'BitAnd': lambda: x & y,
                     'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y,
                     'Div': lambda: x // y, 'Rem': lambda: x % y}[op]()
                return Int(r)
            except (KeyError, ZeroDivisionError):
                pass
        if op in ('BitAnd', 'BitOr') and (is_c(a, 'bool') or is_c(b, 'bool')):
            if is_c(b, 'bool'):
                a, b = b, a
            if op == 'BitAnd':
                return b if a.a[1] else FALSE
            return TRUE if a.a[1] else b
        if op in ('Add', 'Sub') and is_c(b, 'int') and b.a[1] == 0:
            return a
        if op == 'Add' and is_c(a, 'int'):
            a, b = b, a
        # normalise chains of constant offsets
        if op == 'Sub' and is_c(b, 'int'):
            op, b = 'Add', Int(-b.a[1])
        if op == 'Add' and is_c(b, 'int'):
            if a.op == 'bin' and a.a[0] == 'Add' and is_c(a.a[2], 'int'):
                k = a.a[2].a[1] + b.a[1]
                return a.a[1] if k == 0 else T('bin', 'Add', a.a[1], Int(k))
        elif op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor') and a.i > b.i:
            a, b = b, a
        return T('bin', op, a, b)

    def neg(self, a):
        if is_c(a, 'bool'):
            return Bool(not a.a[1])
        if a.op == 'not':
            return a.a[0]
        return T('not', a)

    def assume(self, st, cond, val):
        """Returns False when contradictory."""
        while cond.op == 'not':
            cond, val = cond.a[0], not val
        if is_c(cond, 'bool'):
            return cond.a[1] == val
        k = st.facts.get(cond)
        if k is not None:
            return k == val
        if cond.op == 'bin' and cond.a[0] in ('Eq', 'Lt'):
            r = self.cmp_known(st, cond.a[0], cond.a[1], cond.a[2])
            if r is not None:
                return r == val
            if cond.a[0] == 'Eq':
                x, y = cond.a[1], cond.a[2]
                if is_c(y):
                    if val:
                        st.facts[x] = y.a[1]
                    else:
                        st.facts[('ne', x)] = st.facts.get(('ne', x), frozenset()) | {y.a[1]}
        st.facts[cond] = val
        return True

    def truth(self, st, cond):
        neg = False
        while cond.op == 'not':
            cond, neg = cond.a[0], not neg
        if is_c(cond, 'bool'):
            return cond.a[1] != neg
        k = st.facts.get(cond)
        if k is None and cond.op == 'bin' and cond.a[0] in ('Eq', 'Lt'):
            k = self.cmp_known(st, cond.a[0], cond.a[1], cond.a[2])
        if k is None:
            return None
        return bool(k) != neg

    # zone (difference bounds): facts `a < b` / `not a < b` over terms with constant offsets
    def lin(self, t):
        if is_c(t, 'int'):
            return (None, t.a[1])
        if t.op == 'bin' and t.a[0] == 'Add' and is_c(t.a[2], 'int'):
            return (t.a[1], t.a[2].a[1])
        return (t, 0)

    def zone_edges(self, st):
        ed = {}

        def add(u, v, w):   # v - u <= w
            k = ed.setdefault(u, {})
            if v not in k or k[v] > w:
                k[v] = w
        for c, val in st.facts.items():
            if isinstance(c, tuple):
                if c[0] == 'ne' and 0 in val and self.nonneg(c[1]):
                    b, o = self.lin(c[1])
                    add(b, None, o - 1)     # b + o >= 1
                continue
            if c.op == 'bin' and c.a[0] == 'Lt':
                a, b = c.a[1], c.a[2]
                (x, i), (y, j) = self.lin(a), self.lin(b)
                if val:      # x+i < y+j  -> x - y <= j-i-1
                    add(y, x, j - i - 1)
                else:        # y+j <= x+i -> y - x <= i-j
                    add(x, y, i - j)
            elif c.op == 'bin' and c.a[0] == 'Eq' and val is False and (is_c(c.a[1], 'int') and c.a[1].a[1] == 0 and self.nonneg(c.a[2]) or is_c(c.a[2], 'int') and c.a[2].a[1] == 0 and self.nonneg(c.a[1])):
                b, o = self.lin(c.a[2] if is_c(c.a[1]) else c.a[1])
                add(b, None, o - 1)
            elif c.op == 'bin' and c.a[0] == 'Eq' and val is True:
                (x, i), (y, j) = self.lin(c.a[1]), self.lin(c.a[2])
                add(y, x, j - i)
                add(x, y, i - j)
            elif isinstance(val, int) and not isinstance(val, bool):
                x, i = self.lin(c)
                add(None, x, val - i)
                add(x, None, i - val)
        return ed

    def nonneg(self, t):
        return t.op == 'len' or (t.op in ('call', 'hv', 'count') and t in self.unsigned) or t in self.unsigned

    unsigned = frozenset()

    def zone_bound(self, st, x, y):
        """Least w with  x - y <= w  derivable, else None (x, y: base terms or None for zero)."""
        ed = self.zone_edges(st)
        nodes = set(ed)
        for v in ed.values():
            nodes |= set(v)
        nodes |= {x, y}
        for n in list(nodes):
            if n is not None and (self.nonneg(n)):
                k = ed.setdefault(n, {})      # zero - n <= 0
                if None not in k or k[None] > 0:
                    k[None] = 0
        # shortest path from y to x
        dist = {y: 0}
        for _ in range(len(nodes) + 1):
            ch = False
            for u, d in list(dist.items()):
                for v, w in ed.get(u, {}).items():
                    if v not in dist or dist[v] > d + w:
                        dist[v] = d + w
                        ch = True
            if not ch:
                break
        return dist.get(x)

    def zone_lt(self, st, a, b):
        (x, i), (y, j) = self.lin(a), self.lin(b)
        if x is y:
            return i < j
        w = self.zone_bound(st, x, y)       # x - y <= w ; a<b iff x-y < j-i
        if w is not None and w < j - i:
            return True
        w = self.zone_bound(st, y, x)       # y - x <= w ; a>=b iff y-x <= i-j
        if w is not None and w <= i - j:
            return False
        return None

    def contains(self, t, x):
        k = (t, x)
        r = self._hasm.get(k)
        if r is None:
            r = self._hasm[k] = x in subterms(t if isinstance(t, T) else T('w', t))
        return r

    def purge(self, st, x):
        """Forget path facts about a term that is about to denote a new value."""
        for k in [k for k in st.facts if self.contains(k, x)]:
            del st.facts[k]

    def fork_bool(self, st, cond):
        r = self.truth(st, cond)
        if r is not None:
            return [(st, r)]
        out = []
        s2 = st.copy()
        if self.assume(st, cond, True):
            out.append((st, True))
        if self.assume(s2, cond, False):
            out.append((s2, False))
        return out

    def variant_hints(self, st, x):
        return ()

    def clone_value(self, st, v, ty, c):
        return [(st, v)]

    def faithful_clone(self, name):
        """Does this Clone impl provably return a value with the same content as its argument?"""
        r = self._faith.get(name)
        if r is not None:
            return r
        self._faith[name] = True      # recursive types: coinductive
        ty = self.p.types[self.p.raw_fns[name]['self']]
        a = self.p.adt(ty.adt) if ty.adt else None
        ok = False
        if a is not None:
            save = (self.interest, self.on_oblig, self.on_call, self.on_panic)
            self.interest, self.on_oblig, self.on_call, self.on_panic = (lambda p: False), None, None, None
            arg = T('arg', '@cl')
            try:
                outs = self.run_body(self.p.body(name), (('entry', name, 'clone'),), [Ref(('P', arg), ())],
                                     State({}, {}, NIL))
                ok = bool(outs)
                for s, v in outs:
                    v = self.strip(s, v)
                    if v is arg:
                        continue
                    if v.op != 'agg':
                        ok = False
                        break
                    src = T('as', arg, v.a[1]) if a['kind'] == 'enum' else arg
                    kn = self.variant_of(s, arg)
                    if a['kind'] == 'enum' and kn != v.a[1]:
                        ok = False
                    for n, x in zip(v.a[2], v.a[3]):
                        if x is not T('f', src, n):
                            ok = False
            except (Limit, RecursionError):
                ok = False
            self.interest, self.on_oblig, self.on_call, self.on_panic = save
        self._faith[name] = ok
        return ok

    def run_display(self, st, name, v):
        """Text a local Display impl produces for v, when it is a single expression; else None."""
        save = (self.interest, self.on_oblig, self.on_call, self.on_panic)
        self.interest, self.on_oblig, self.on_call, self.on_panic = (lambda p: False), None, None, None
        try:
            outs = self.run_body(self.p.body(name), (('entry', name, 'disp', v),),
                                 [Ref(('P', v), ()), Ref(('Fmt', 0), ())],
                                 State({**st.store, ('Fmt', 0): Str('')}, dict(st.facts), NIL))
        except (Limit, RecursionError):
            outs = []
        self.interest, self.on_oblig, self.on_call, self.on_panic = save
        vals = {s.store.get(('Fmt', 0)) for s, _ in outs}
        if len(vals) == 1:
            return next(iter(vals))
        return None

    def drive(self, st, c, step, done, it, ad=None):
        """Consume an iterator with a per-element step: step(state, element) -> [(state, result or None to go on)];
        done(state) -> result when the iterator is exhausted.  The captured state is run to a fixpoint."""
        from models import unlist
        import models
        iter_next = models.iter_next
        k = it.a[0] if it.op == 'iter' and len(it.a) == 3 else None
        base = it
        while base.op == 'iter' and len(base.a) == 3 and base.a[0] in ('enum', 'cloned', 'map', 'filter', 'filter_map', 'rev'):
            base = base.a[1]
        conc = False
        if base.op == 'iter' and len(base.a) == 3 and base.a[0] in ('ref', 'refv', 'val'):
            l = unlist(self.strip(st, base.a[1]) if base.a[0] == 'ref' else base.a[1])
            conc = l is not None and len(l) <= 24 and k != 'rev'
        elif base.op == 'agg' and base.a[0] == 'std::ops::Range' and k != 'rev':
            lo, hi = project(base, 'start'), project(base, 'end')
            conc = is_c(lo, 'int') and is_c(hi, 'int') and hi.a[1] - lo.a[1] <= 24
        res = []
        if self.segmode:
            import seg
            r = seg.drive(self, st, c, step, done, it, ad)
            if r is not None:
                return r
        if conc:
            cur = [(st, it)]
            for _ in range(26):
                nxt = []
                for s, i in cur:
                    for s2, e, ni in iter_next(self, s, i, c):
                        if ad is not None:
                            self.write(s2, ad, ni)
                        if e is None:
                            res.append((s2, done(s2)))
                            continue
                        for s3, r in step(s2, e):
                            if r is None:
                                nxt.append((s3, ni))
                            else:
                                res.append((s3, r))
                cur = nxt
                if not cur:
                    return res
            raise Limit('iterator drive does not end')
        item = T('loop', c.fn, -2, c.site, st.trace)
        s0 = st.copy()
        if ad is not None:       # it may be anywhere afterwards
            self.write(s0, ad, T('iter', T('left', c.fn, c.site)))
        for rnd in range(30):
            s1 = s0.copy()
            marker = T('tr', s1.trace, item)
            s1.trace = marker
            exits, bodies, dirty, backs = [], set(), [], []
            for s2, e, ni in iter_next(self, s1, models.generic(self, s1, it), c):
                if e is None:
                    exits.append((s2, done(s2)))
                    continue
                for s3, r in step(s2, e):
                    if r is not None:
                        exits.append((s3, r))
                        continue
                    bodies.add(tuple(items_of(s3.trace, marker)))
                    backs.append(s3)
                    for bs, v in s3.store.items():
                        o = s0.store.get(bs)
                        if o is None:
                            o = self.default(bs)
                        if bs[0] not in ('E',) and v is not o:
                            self.diff(o, v, bs, (), dirty)
            ch = False
            for bs, path, old, new in dirty:
                hv = T('hv', ('drive', c.fn, c.site), bs, path)
                self.hsrc.setdefault(hv, set()).update((old, new))
                if self.read(s0, (bs, path)) is not hv and old is not hv:
                    self.write(s0, (bs, path), hv)
                    ch = True
            if not ch:
                break
        if self.on_back:
            for s3 in backs:
                self.on_back(c.fn, None, s3)
        if any(bodies):
            self.loops.setdefault(item, set()).update(bodies)
        else:
            for s, _ in exits:
                tr = st.trace
                for x in items_of(s.trace, marker):
                    tr = T('tr', tr, x)
                s.trace = tr
        return exits

    # ---------------------------------------------------------------- variants
    def variants(self, adt):
        a = self.p.adt(adt)
        return a['v'] if a else None

    def variant_of(self, st, x):
        if x.op == 'agg':
            return x.a[1]
        return st.facts.get(T('discr', x))

    def fork_variant(self, st, x, adt):
        """[(state, variant name)] covering every variant of x that is possible on this path."""
        v = self.variant_of(st, x)
        if v is not None:
            return [(st, v)]
        vs = self.variants(adt)
        d = T('discr', x)
        ne = st.facts.get(('ne', d), frozenset())
        out = []
        names = [q['n'] for q in vs if q['n'] not in ne]
        for n in names:
            s2 = st.copy() if n != names[-1] else st
            s2.facts[d] = n
            out.append((s2, n))
        return out

    def payload(self, x, variant, field='0'):
        return project(project(x, ('as', variant)), field)

    # ---------------------------------------------------------------- events
    def event(self, st, path, args, ret, call, info=()):
        if self.interest(path):
            e = T('ev', path, tuple(args), ret, call.fn if call else '', call.sp if call else '', tuple(info))
            st.trace = T('tr', st.trace, e)

    # ---------------------------------------------------------------- execution
    def entry(self, name, args=None, st=None):
        """Analyse a function from unconstrained (or given) arguments; returns [(state, return value)]."""
        n = self.p.find(name)
        if n is None:
            return None
        body = self.p.body(n)
        st = st or State({}, {}, NIL)
        if args is None:
            args = [T('arg', body.lname(i + 1) or str(i)) for i in range(body.argc)]
        return self.run_body(body, (('entry', n),), args, st)

    def run_body(self, body, chain, args, st):
        fid = self.fid(chain)
        st = st.copy()
        self.visited.add(body.name)
        for i, a in enumerate(args):
            st.store[('L', fid, i + 1)] = a
        out = self.region(body, fid, chain, None, 0, [st], None)
        res = {}
        for s in out['ret']:
            v = s.store.get(('L', fid, 0), UNIT)
            if chain[0][0] == 'const':
                v = self.freeze(s, v)
            for k in [k for k in s.store if k[0] == 'L' and k[1] == fid]:
                del s.store[k]
            key = (s.key(), v)
            if self.nojoin:
                key = (key, frozenset(s.facts.items()))
            o = res.get(key)
            if o is None:
                res[key] = (s, v)
            else:
                self.join_facts(o[0], s)
        return list(res.values())

    def join_facts(self, a, b):
        self.stat['joins'] += 1
        f = {}
        for k, v in a.facts.items():
            w = b.facts.get(k)
            if w is not None:
                if isinstance(k, tuple):
                    w = v & w
                    if w:
                        f[k] = w
                elif w == v and type(w) is type(v):
                    f[k] = v
        a.facts = f

    def region(self, body, fid, chain, blocks, entry, states, header):
        pend = {}
        heap = []
        res = {'ret': [], 'back': [], 'exit': {}}

        def push(b, s, first=False):
            if not first:
                if header is not None and b == header:
                    res['back'].append(s)
                    return
                if blocks is not None and b not in blocks:
                    res['exit'].setdefault(b, []).append(s)
                    return
            live = body.live_unw[b] if self.unwinding else body.live_in[b]
            for k in [k for k in s.store if k[0] == 'L' and k[1] == fid and k[2] not in live
                      and k[2] not in body.borrowed]:
                del s.store[k]
            d = pend.get(b)
            if d is None:
                d = pend[b] = {}
                heapq.heappush(heap, body.rpoi[b])
            k = s.key()
            if self.nojoin:
                k = (k, frozenset(s.facts.items()))
            o = d.get(k)
            if o is None:
                d[k] = s
            else:
                self.join_facts(o, s)
        for s in states:
            push(entry, s, True)
        started = False
        while heap:
            i = heapq.heappop(heap)
            b = body.rpo[i]
            sts = list(pend.pop(b).values())
            if b in body.loops and b != header:
                for s in sts:
                    o = self.loop(body, fid, chain, b, s)
                    res['ret'].extend(o['ret'])
                    for x, ss in o['exit'].items():
                        for s2 in ss:
                            push(x, s2)
            else:
                for s in sts:
                    for nb, s2 in self.block(body, fid, chain, b, s):
                        if nb == 'ret':
                            res['ret'].append(s2)
                        else:
                            push(nb, s2)
        return res

    # loops ---------------------------------------------------------------
    def diff(self, old, new, base, path, out, depth=0):
        if old is new:
            return
        if depth < 6:
            if old.op == 'agg' and new.op == 'agg' and old.a[:3] == new.a[:3]:
                for n, x, y in zip(old.a[2], old.a[3], new.a[3]):
                    self.diff(x, y, base, path + (n,), out, depth + 1)
                return
            if old.op == 'tup' and new.op == 'tup' and len(old.a) == len(new.a):
                for n, (x, y) in enumerate(zip(old.a, new.a)):
                    self.diff(x, y, base, path + (str(n),), out, depth + 1)
                return

            def chain(v):
                s = {}
                while v.op == 'upd' and isinstance(v.a[1], str):
                    s.setdefault(v.a[1], v.a[2])
                    v = v.a[0]
                return v, s
            (b1, s1), (b2, s2) = chain(old), chain(new)
            if b1 is b2 and (s1 or s2):
                for n in sorted(set(s1) | set(s2)):
                    self.diff(s1.get(n) or project(b1, n), s2.get(n) or project(b1, n), base, path + (n,), out,
                              depth + 1)
                return
        out.append((base, path, old, new))

    @staticmethod
    def finite(v):
        return (v.op == 'c' and v.a[0] in ('bool', 'int', 'str') and not (v.a[0] == 'str' and len(v.a[1]) > 40)) \
            or (v.op == 'agg' and not v.a[3]) or (v.op == 'agg' and len(v.a[3]) == 1 and v.a[3][0].op == 'agg'
                                                  and not v.a[3][0].a[3])

    def loop(self, body, fid, chain, h, st):
        if self.segmode:
            import seg
            save = len(self.panics)
            o = seg.loop(self, body, fid, chain, h, st)
            if o is not None:
                return o
            del self.panics[save:]
            if 'loops' in os.environ.get('STARRY_DEBUG', ''):
                print('loop not followed', body.name, h)
        blocks = body.loops[h]
        lk = (body.name, h, fid)
        item = T('loop', body.name, h, fid, st.trace)
        hav = {}
        vals = {}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60:
                raise Limit(f'loop in {body.name} does not stabilise')
            s_init = st.copy()
            for (base, path), hv in hav.items():
                if base in s_init.store or base[0] != 'L':
                    self.write(s_init, (base, path), hv)
            marker = T('tr', s_init.trace, item)
            heads = {}
            work = []

            def addhead(s):
                k = s.key()
                if k not in heads:
                    heads[k] = s
                    work.append(s)
            s_init.trace = marker
            for (base, path), hv in hav.items():
                for X in list(self.invs.get(hv, ())):
                    # a relation the variable is suspected to keep: it holds at first ...
                    if not self.prove(st, self.binop(st, 'Le', self.read(st, (base, path)), X)):
                        self.invs[hv].discard(X)
                        self.inv_bad.add((hv, X))
                    else:
                        self.assume(s_init, self.binop(s_init, 'Le', hv, X), True)
            init_store = dict(s_init.store)
            addhead(s_init.copy())
            bodies = set()
            outs = {'ret': [], 'exit': {}}
            changed = False
            while work and not changed:
                s = work.pop(0)
                o = self.region(body, fid, chain, blocks, h, [s.copy()], h)
                outs['ret'].extend(o['ret'])
                for x, ss in o['exit'].items():
                    outs['exit'].setdefault(x, []).extend(ss)
                for back in o['back']:
                    if self.on_back:
                        self.on_back(body.name, h, back)
                    for (base, path), hv in hav.items():
                        for X in list(self.invs.get(hv, ())):
                            # ... and after every round that began with it
                            if not self.prove(back, self.binop(back, 'Le', self.read(back, (base, path)), X)):
                                self.invs[hv].discard(X)
                                self.inv_bad.add((hv, X))
                    bodies.add(tuple(items_of(back.trace, marker)))
                    ds = []
                    for base in set(init_store) | set(back.store):
                        if base[0] == 'L' and base[1] == fid and base[2] not in body.live_in[h] \
                                and base[2] not in body.borrowed:
                            continue
                        a = init_store.get(base)
                        n = back.store.get(base)
                        if n is None:
                            continue
                        if a is None:
                            if base[0] == 'L':
                                if base[1] == fid:
                                    continue
                                continue
                            a = self.default(base)
                        self.diff(a, n, base, (), ds)
                    nh = s_init.copy()
                    nh.held = back.held
                    nh.ghost = back.ghost
                    for base, path, old, new in ds:
                        k = (base, path)
                        covered = next((kk for kk in hav if kk[0] == base and path[:len(kk[1])] == kk[1]), None)
                        if covered:
                            self.hsrc.setdefault(hav[covered], set()).add(new)
                            continue
                        if self.finite(old) and self.finite(new):
                            vs = vals.setdefault(k, {old})
                            vs.add(new)
                            ints = sum(1 for v in vs if is_c(v, 'int'))
                            if ints <= 9 and len(vs) <= 12 and len(heads) < 60:
                                self.write(nh, k, new)
                                continue
                        hv = T('hv', lk, base, path)
                        self.hsrc.setdefault(hv, set()).update(vals.get(k, ()))
                        self.hsrc[hv].update((old, new))
                        for kk in [kk for kk in hav if kk[0] == base and kk[1][:len(path)] == path]:
                            del hav[kk]
                        hav[k] = hv
                        self.note_type(hv, body, fid, base, path)
                        changed = True
                    if not changed:
                        addhead(nh)
            if not changed:
                break
        if any(bodies):
            self.loops.setdefault(item, set()).update(bodies)
        else:
            # no observable event inside: drop the marker
            def unmark(s):
                tr = st.trace
                for it in items_of(s.trace, marker):
                    tr = T('tr', tr, it)
                s.trace = tr
            for s in outs['ret']:
                unmark(s)
            for ss in outs['exit'].values():
                for s in ss:
                    unmark(s)
        return outs

    def note_type(self, hv, body, fid, base, path):
        if base[0] == 'L' and base[1] == fid and not path:
            t = body.ty(base[2])
            if t.s in ('usize', 'u8', 'u16', 'u32', 'u64'):
                self.unsigned = self.unsigned | {hv}

    # blocks ----------------------------------------------------------------
    def block(self, body, fid, chain, b, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit(f'step budget exhausted in {body.name}')
        blk = body.blocks[b]
        for s in blk['s']:
            k = s['k']
            if k == '=':
                v = self.rvalue(body, fid, st, s['r'], chain, b)
                self.write(st, self.addr(st, fid, s['pl']), v)
            elif k == 'dead':
                st.store.pop(('L', fid, s['l']), None)
            elif k == 'sd':
                pass
        t = blk['t']
        k = t['k']
        if k == 'goto':
            return [(t['t'], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'switch':
            return self.switch(body, fid, st, t)
        if k == 'call':
            outs = self.call(body, fid, chain, b, st, t)
            res = []
            for s2, v in outs:
                if t['t'] is None:
                    continue
                if v is not None:
                    self.write(s2, self.addr(s2, fid, t['d']), v)
                res.append((t['t'], s2))
            return res
        if k == 'drop':
            return [(t['t'], s2) for s2 in self.drop(body, fid, chain, b, st, t)]
        if k == 'assert':
            c = self.operand(st, fid, t['c'])
            tr = self.truth(st, c)
            if self.on_oblig and tr is not (t['e']):
                m = t['m']
                data = {kk: self.operand(st, fid, m[kk]) for kk in ('len', 'index', 'a', 'b') if kk in m}
                if 'a' in m:
                    data['ty'] = self.op_ty(body, m['a'])
                self.on_oblig(m['k'], m.get('op'), data, st, body.name, t['sp'], c, t['e'])
            if tr is not None and tr != t['e']:
                return []
            if not self.assume(st, c, t['e']):
                return []
            return [(t['t'], st)]
        return []

    def unwind(self, st, c):
        """States in which a panic raised by call c leaves the analysed entry, the clean-up of every frame having run."""
        frames = [(c.fn, c.site, c.chain)]
        for i in range(len(c.chain) - 1, -1, -1):
            x = c.chain[i]
            if len(x) == 3 and isinstance(x[2], tuple) and x[0]:
                frames.append((x[0], x[2], c.chain[:i]))
        sts = [st.copy()]
        for fn, site, chain in frames:
            if fn not in self.p.raw_fns:
                continue
            body = self.p.body(fn)
            u = body.blocks[site[1]]['t'].get('u')
            if u is None:
                continue
            out = []
            work = [(u, s) for s in sts]
            n = 0
            while work:
                b, s = work.pop()
                n += 1
                if n > 2000:
                    raise Limit(f'clean-up of {fn} does not end')
                if body.blocks[b]['t']['k'] == 'resume':
                    self.block(body, site[0], chain, b, s)
                    out.append(s)
                    continue
                work.extend(self.block(body, site[0], chain, b, s))
            sts = out
        return sts

    def switch(self, body, fid, st, t):
        v = self.operand(st, fid, t['d'])
        ty = self.p.types[t['ty']]
        if v.op == 'discr':
            x, adt = v.a[0], v.a[1]
            vs = self.variants(adt)
            d = T('discr', x)
            by = {q['d']: q['n'] for q in vs}
            kv = self.variant_of(st, x)
            res = []
            ne = st.facts.get(('ne', d), frozenset())
            taken = set()
            for val, blk in t['ts']:
                n = by.get(val)
                if n is None:
                    # negative discriminants are printed unsigned
                    n = next((nm for dd, nm in by.items() if int(dd) % (1 << 64) == int(val) % (1 << 64)), None)
                taken.add(n)
                if kv is not None:
                    if kv == n:
                        return [(blk, st)]
                    continue
                if n in ne or n is None:
                    continue
                s2 = st.copy()
                s2.facts[d] = n
                res.append((blk, s2))
            rest = [q['n'] for q in vs if q['n'] not in taken and q['n'] not in ne]
            if kv is not None:
                return [(t['o'], st)]
            if rest and body.blocks[t['o']]['t']['k'] != 'unreachable':
                s2 = st
                if len(rest) == 1:
                    s2.facts[d] = rest[0]
                else:
                    s2.facts[('ne', d)] = ne | frozenset(x for x in taken if x)
                res.append((t['o'], s2))
            return res
        if is_c(v):
            x = v.a[1]
            x = int(x) if v.a[0] in ('bool', 'int', 'char') else x
            for val, blk in t['ts']:
                if int(val) == x or (isinstance(x, int) and x < 0 and int(val) == x % (1 << {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}.get(ty.s, 64))):
                    return [(blk, st)]
            return [(t['o'], st)]
        if ty.s == 'bool':
            res = []
            fb = next((blk for val, blk in t['ts'] if val == '0'), t['o'])
            tb = next((blk for val, blk in t['ts'] if val == '1'), t['o'])
            for val, blk in ((True, tb), (False, fb)):
                s2 = st.copy()
                if self.assume(s2, v, val):
                    res.append((blk, s2))
            return res
        kv = st.facts.get(v)
        ne = st.facts.get(('ne', v), frozenset())
        res = []
        wrap = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}.get(ty.s)
        seen = set()
        for val, blk in t['ts']:
            n = int(val)
            if wrap and n >= 1 << (wrap - 1):
                n -= 1 << wrap
            seen.add(n)
            if kv is not None and not isinstance(kv, bool):
                if kv == n:
                    return [(blk, st)]
                continue
            if n in ne:
                continue
            if self.segmode and seglen(v):
                q = self.binop(st, 'Eq', v, Int(n))
                if is_c(q, 'bool'):
                    if q.a[1]:
                        return [(blk, st)]
                    continue
            if ty.s != 'char':
                q = self.truth(st, self.binop(st, 'Eq', v, Int(n)))
                if q is True:
                    return [(blk, st)]
                if q is False:
                    continue
            s2 = st.copy()
            s2.facts[v] = n
            res.append((blk, s2))
        if kv is not None and not isinstance(kv, bool):
            return [(t['o'], st)]
        if body.blocks[t['o']]['t']['k'] != 'unreachable':
            st.facts[('ne', v)] = ne | seen
            res.append((t['o'], st))
        return res

    def rvalue(self, body, fid, st, r, chain, b):
        k = r['k']
        if k == 'use':
            return self.operand(st, fid, r['a'])
        if k == 'ref' or k == 'rawptr':
            base, path = self.addr(st, fid, r['pl'])
            return Ref(base, path)
        if k == 'agg':
            vals = [self.operand(st, fid, o) for o in r['ops']]
            ak = r['ak']
            if ak == 'tuple':
                return T('tup', *vals)
            if ak == 'array':
                return T('arr', *vals)
            if ak == 'adt':
                return Agg(r['adt'], r['v'], r['fields'][:len(vals)], vals)
            if ak == 'closure':
                return T('clo', r['def'], tuple(vals))
            return T('aggx', *vals)
        if k == 'cast':
            ck = r['ck']
            pl = r['a'].get('pl') if isinstance(r['a'], dict) else None
            if pl and pl['p'] and pl['p'][-1][0] == 'f' and pl['p'][-1][4] in ('std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull') \
                    and self.p.types[r['ty']].k == 'ptr':
                a = self.addr(st, fid, pl)
                v = self.read(st, a)
                return Ref(*a)
            v = self.operand(st, fid, r['a'])
            if ck.startswith('PointerCoercion') or ck in ('Transmute', 'PtrToPtr', 'Subtype') or 'Reify' in ck:
                return v
            to = self.p.types[r['ty']].s
            if ck == 'IntToInt':
                bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i8': 8, 'i16': 16, 'i32': 32,
                        'i64': 64, 'isize': 64, 'i128': 128}.get(to)
                if is_c(v) and v.a[0] in ('int', 'char', 'bool') and bits:
                    x = int(v.a[1]) % (1 << bits)
                    if to[0] == 'i' and x >= 1 << (bits - 1):
                        x -= 1 << bits
                    return Int(x)
                frm = self.op_ty(body, r['a'])
                if frm is not None and frm.s == to or self.segmode and seglen(v) and bits and bits >= 64:
                    return v
                return T('cast', to, v)
            return T('cast', to, v)
        if k == 'bin':
            a = self.operand(st, fid, r['a'])
            c = self.operand(st, fid, r['b'])
            op = r['op']
            if op.endswith('WithOverflow'):
                o = op[:-12]
                v = self.binop(st, o, a, c)
                if is_c(v, 'int'):
                    ty = self.op_ty(body, r['a'])
                    lo, hi = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2 ** 32 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1),
                              'i64': (-2 ** 63, 2 ** 63 - 1), 'isize': (-2 ** 63, 2 ** 63 - 1)}.get(
                        ty.s if ty else '', (0, 2 ** 64 - 1))
                    return T('tup', v, Bool(not lo <= v.a[1] <= hi))
                ty = self.op_ty(body, r['a'])
                if ty is not None and ty.s in ('usize', 'u64', 'u32', 'u16', 'u8'):
                    if o == 'Sub':
                        # unsigned subtraction overflows exactly when a < b
                        return T('tup', v, self.binop(st, 'Lt', a, c))
                return T('tup', v, T('ovf', o, a, c))
            if op.endswith('Unchecked'):
                op = op[:-9]
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                ty = self.op_ty(body, r['a'])
                if ty is not None and ty.s in ('usize', 'u64', 'u32', 'u16', 'u8'):
                    for x in (a, c):
                        if not is_c(x) and x not in self.unsigned and self.lin(x)[0] is x:
                            self.unsigned = self.unsigned | {x}
            return self.binop(st, op, a, c)
        if k == 'un':
            a = self.operand(st, fid, r['a'])
            if r['op'] == 'Not':
                ty = self.op_ty(body, r['a'])
                if ty is not None and ty.s != 'bool':
                    return T('bitnot', a)
                return self.neg(a)
            if r['op'] == 'PtrMetadata':
                return self.length(st, a)
            if is_c(a, 'int') and r['op'] == 'Neg':
                return Int(-a.a[1])
            return T('un', r['op'], a)
        if k == 'discr':
            x = self.read(st, self.addr(st, fid, r['pl']))
            ty = self.p.types[r['ty']]
            v = self.variant_of(st, x)
            if v is not None:
                for q in self.variants(ty.adt) or ():
                    if q['n'] == v:
                        return Int(int(q['d']))
            if ty.k != 'adt':
                return T('discrx', x)
            return T('discr', x, ty.adt)
        if k == 'repeat':
            return T('rep', self.operand(st, fid, r['a']), r['n'])
        return T('rv', k, body.name, b)

    def length(self, st, v):
        v = self.strip(st, v)
        if self.segmode and v.op in ('run', 'cat'):
            import seg
            if seg.parts(v) is not None:
                return seg.length(v)
        if is_c(v, 'str'):
            return Int(len(v.a[1].encode()))
        if is_c(v, 'bytes'):
            return Int(len(v.a[1]))
        if v.op in ('arr', 'seq'):
            return Int(len(v.a))
        if v.op == 'rep' and v.a[1] is not None:
            return Int(v.a[1])
        if v.op == 'bytes':
            return self.length(st, v.a[0])
        if v.op == 'hv' and v.a[2] == () and v.a[1][0] == 'L':
            n = self.fixed_len(v.a[1])
            if n is not None:
                return Int(n)
        return T('len', v)

    def fixed_len(self, base):
        """The length of a local that is an array"""
        for ch, f in self.frames.items():
            if f == base[1]:
                n = ch[-1][1]
                if n in self.p.raw_fns:
                    b = self.p.body(n)
                    t = b.ty(base[2]) if isinstance(base[2], int) and base[2] < len(b.locals) else None
                    if t is not None and t.k == 'array' and isinstance(t.raw.get('n'), int):
                        return t.raw['n']
                return None
        return None

    # drops -----------------------------------------------------------------
    def guards_in(self, v):
        if v._g is None:
            v._g = tuple(x for x in subterms(v) if x.op == 'guard')
        return v._g

    def release(self, st, v, call):
        for g in self.guards_in(v):
            if any(h[2] is g for h in st.held):
                st.held = tuple(h for h in st.held if h[2] is not g)
                self.event(st, '@unlock', (g.a[0],), UNIT, call)

    def drop(self, body, fid, chain, b, st, t):
        ad = self.addr(st, fid, t['pl'])
        v = self.read(st, ad)
        ty = self.p.types[t['ty']]
        c = Call()
        c.fn, c.sp, c.path = body.name, t['sp'], '@drop'
        self.release(st, v, c)
        if ty.k == 'adt' and ty.adt in self.p.drops:
            self.event(st, '@drop', (v, T('ty', ty.adt)), UNIT, c)
            n = self.p.drops[ty.adt]
            if not self.opaque(canon(n)) and len(chain) < self.max_depth and not any(x[1] == n for x in chain):
                return [s for s, _ in self.run_body(self.p.body(n), chain + ((body.name, n, b),), [Ref(*ad)], st)]
        elif self.interest('@drop:' + (ty.adt or ty.s)):
            self.event(st, '@drop:' + (ty.adt or ty.s), (v,), UNIT, c)
        return [st]

    # calls -----------------------------------------------------------------
    def call(self, body, fid, chain, b, st, t):
        f = t['f']
        c = Call()
        c.fn, c.sp, c.chain = body.name, t['sp'], chain
        c.args = [self.operand(st, fid, o) for o in t['a']]
        c.tys = [self.op_ty(body, o) for o in t['a']]
        c.dty = self.p.types[t['dty']]
        c.site = (fid, b)
        c.f = f
        c.full = f.get('full', '')
        self.sites.add((body.name, b))
        if f['k'] != 'fn':
            fv = self.operand(st, fid, f)
            return self.call_value(st, fv, c.args, c)
        if 'ctor' in f:
            return [(st, self.mk_ctor(f['ctor'][0], f['ctor'][1], c.args))]
        name = f['r'] if f.get('rlocal') else None
        if name is None and f['local'] and 'trait' not in f:
            name = f['path']
        c.path = canon(f['path'])
        return self.dispatch(st, c, name, canon(f.get('r', f['path'])))

    def mk_ctor(self, adt, variant, args):
        return Agg(adt, variant, [str(i) for i in range(len(args))], args)

    def dispatch(self, st, c, name, rpath):
        if self.on_call:
            self.on_call(st, c, name, rpath)
        cn = canon(name) if name else None
        h = self.overrides.get(cn) or self.overrides.get(c.path) or self.overrides.get(rpath)
        if h is not None:
            r = h(self, st, c)
            if r is not NotImplemented:
                return r
        if name is not None and c.path == 'std::clone::Clone::clone' and self.faithful_clone(name):
            return [(st, self.content(st, c.args[0], c.tys[0]))]
        if name is None or c.path in FORCE_MODEL:
            h = self.models.get(rpath) or self.models.get(c.path)
            if h is not None:
                r = h(self, st, c)
                if r is not NotImplemented:
                    return r
        if name is None and c.f['k'] == 'fn' and c.f['local']:
            # unresolved local trait method: use the only implementation if there is exactly one
            cand = [n for n, f in self.p.raw_fns.items() if f.get('trait') == c.f.get('trait')
                    and f.get('name') == c.path.split('::')[-1]]
            if len(cand) == 1:
                name = cand[0]
                cn = canon(name)
        if name is not None and name in self.p.raw_fns and not self.opaque(cn):
            if any(x[1] == name for x in chain_names(c.chain)) or len(c.chain) >= self.max_depth:
                return self.generic(st, c, '@rec:' + cn)
            return self.inline(st, c, name, c.args)
        return self.generic(st, c, cn or c.path)

    def inline(self, st, c, name, args):
        return self.run_body(self.p.body(name), c.chain + ((c.fn, name, c.site),), args, st)

    def call_value(self, st, fv, args, c):
        fv = self.strip(st, fv)
        if fv.op == 'ctor':
            return [(st, self.mk_ctor(fv.a[0], fv.a[1], args))]
        if fv.op == 'clo':
            name = fv.a[0]
            body = self.p.body(name)
            envty = body.ty(1)
            if any(x[1] == name for x in c.chain) or len(c.chain) >= self.max_depth:
                return self.generic(st, c, '@rec:' + name)
            st = st.copy()
            if envty.k == 'ref':
                base = ('E', c.site, name)
                st.store[base] = fv
                env = T('ref', base, ())
            else:
                env = fv
            if len(args) != body.argc - 1 and len(args) == 1 and args[0].op == 'tup':
                args = list(args[0].a)
            return self.run_body(body, c.chain + ((c.fn, name, c.site),), [env] + list(args), st)
        if fv.op == 'fn':
            c = c.copy()
            c.path = canon(fv.a[0])
            c.args = list(args)
            if fv.a[0] in self.p.raw_fns:
                bd = self.p.body(fv.a[0])
                c.tys = [bd.ty(i + 1) for i in range(bd.argc)]
                c.dty = bd.ty(0)
                c.f = {'k': 'fn', 'local': True, 'path': fv.a[0]}
                return self.dispatch(st, c, fv.a[0], canon(fv.a[0]))
            if len(fv.a) > 3:
                c.dty = self.p.types[fv.a[3][-1]]
                c.tys = [self.p.types[x] for x in fv.a[3][:-1]]
            if len(c.tys) != len(args):
                c.tys = [None] * len(args)
            for n in (canon(fv.a[2]) if len(fv.a) > 3 else None, c.path):
                h = self.overrides.get(n) or self.models.get(n)
                if h is not None:
                    r = h(self, st, c)
                    if r is not NotImplemented:
                        return r
            return self.generic(st, c, c.path)
        # opaque function value: an observable indirect call
        c2 = c
        c2.args = [fv] + list(args)
        c2.tys = [None] + (list(c.tys) if len(c.tys) == len(args) else [None] * len(args))
        if self.on_call:
            self.on_call(st, c2, '@icall', None)
        return self.generic(st, c2, '@icall')

    def contents(self, st, c):
        return [self.content(st, a, ty) if a.op != 'clo' else a for a, ty in zip(c.args, c.tys)]

    def generic(self, st, c, path, pure=False, effects=True):
        if path not in self.models and not path.startswith('@'):
            self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        cont = self.contents(st, c)
        ret = T('call', path, tuple(cont), c.site) if not pure else T('call', path, tuple(cont))
        if c.dty.s == '()':
            rv = UNIT
        else:
            rv = ret
        if c.dty.s in ('usize', 'u8', 'u16', 'u32', 'u64'):
            self.unsigned = self.unsigned | {ret}
        self.event(st, path, c.args, ret, c, cont)
        if effects:
            # closures handed to unknown code may run any number of times
            for a in c.args:
                fv = self.strip(st, a)
                if fv.op == 'clo' and path not in NO_RUN:
                    self.any_runs(st, c, fv)
            for i, (a, ty) in enumerate(zip(c.args, c.tys)):
                if a.op == 'ref' and (ty is None or (ty.k == 'ref' and ty.raw.get('mut'))):
                    if ty is None and path != '@icall':
                        continue
                    old = self.read(st, a.a)
                    if old.op == 'ref' and old.a != a.a:
                        tgt = old
                        self.write(st, tgt.a, T('eff', path, i, c.site, self.read(st, tgt.a)))
                    else:
                        self.write(st, a.a, T('eff', path, i, c.site, old))
                elif a.op != 'ref' and ty is not None and ty.k == 'ref' and ty.raw.get('mut'):
                    ad = (('H', a), ())
                    self.write(st, ad, T('eff', path, i, c.site, self.read(st, ad)))
            if self.noreturn(c):
                self.panics.append((path, st, c.fn, c.sp))
                if self.on_panic:
                    self.on_panic(path, st, c)
                return []
        return [(st, rv)]

    def noreturn(self, c):
        return c.dty.s == '!'

    def any_runs(self, st, c, clo, elem=None):
        """Zero or more runs of a closure by library code: havoc its captured places, keep its events in a loop."""
        body = self.p.body(clo.a[0])
        args = [T('cbarg', c.site, i) if elem is None else T('el', elem, T('ix', c.site, i))
                for i in range(body.argc - 1)]
        marker_item = T('loop', clo.a[0], -1, c.site, st.trace)
        s0 = st.copy()
        for _ in range(2):
            s1 = s0.copy()
            marker = T('tr', s1.trace, marker_item)
            s1.trace = marker
            outs = self.call_value(s1, clo, args, c)
            dirty = {}
            bodies = set()
            for s, _v in outs:
                bodies.add(tuple(items_of(s.trace, marker)))
                for base, v in s.store.items():
                    o = s0.store.get(base)
                    if o is None:
                        o = self.default(base)
                    if base[0] != 'E' and v is not o:
                        dirty[base] = v
            if not dirty:
                break
            for base, v in dirty.items():
                hv = T('hv', ('cb', clo.a[0], c.site), base, ())
                self.hsrc.setdefault(hv, set()).update((s0.store.get(base) or self.default(base), v))
                s0.store[base] = hv
        st.store = s0.store
        if any(bodies):
            self.loops.setdefault(marker_item, set()).update(bodies)
            st.trace = T('tr', st.trace, marker_item)


def chain_names(chain):
    return chain


FORCE_MODEL = {'std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'}
NO_RUN = {'std::thread::Builder::spawn', 'std::thread::spawn', 'once_cell::sync::Lazy::new', 'lazy_static::lazy::Lazy::get'}
