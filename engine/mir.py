"""Loads the compiler dump and offers CFG services (RPO, dominators, natural loops, liveness)."""
import json

import names
from functools import lru_cache


def canon(p):
    """Path without generic arguments on segments: `std::option::Option::<T>::unwrap` -> `std::option::Option::unwrap`."""
    if '::<' not in p:
        return p
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            j = i + 2
            d = 0
            while j < n:
                c = p[j]
                if c == '<':
                    d += 1
                elif c == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


class Ty:
    __slots__ = ('s', 'k', 'adt', 'local', 'args', 'raw')

    def __init__(self, raw):
        self.raw = raw
        self.s = raw['s']
        self.k = raw['k']
        self.adt = raw.get('adt')
        self.local = raw.get('local', False)
        self.args = raw.get('args', [])


class Body:
    def __init__(self, prog, name, raw):
        self.prog = prog
        self.name = name
        self.raw = raw
        self.argc = raw['args']
        self.locals = raw['locals']
        self.blocks = raw['blocks']
        self.kind = raw.get('kind', 'promoted')
        self.span = raw.get('sp', '')
        self._prep()

    def ty(self, local):
        return self.prog.types[self.locals[local][0]]

    def lname(self, local):
        return self.locals[local][1]

    def succs(self, b):
        t = self.blocks[b]['t']
        k = t['k']
        if k == 'goto':
            return [t['t']]
        if k == 'switch':
            r = []
            for _, x in t['ts']:
                if x not in r:
                    r.append(x)
            if t['o'] not in r:
                r.append(t['o'])
            return r
        if k in ('drop', 'assert'):
            return [t['t']]
        if k == 'call':
            return [t['t']] if t['t'] is not None else []
        return []

    def _prep(self):
        # reachable blocks ignoring unwind edges, in reverse post-order
        seen = set()
        order = []
        st = [(0, iter(self.succs(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            nx = next(it, None)
            if nx is None:
                order.append(b)
                st.pop()
            elif nx not in seen:
                seen.add(nx)
                st.append((nx, iter(self.succs(nx))))
        order.reverse()
        self.rpo = order
        self.rpoi = {b: i for i, b in enumerate(order)}
        self.reach = set(order)
        self.preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b):
                self.preds[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in self.preds[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while self.rpoi[x] > self.rpoi[y]:
                            x = idom[x]
                        while self.rpoi[y] > self.rpoi[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in order:
            for s in self.succs(b):
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x)
                            wl.extend(self.preds[x])
        # innermost nesting parents: header -> set of blocks (already nested naturally)
        # borrowed locals + liveness
        self.borrowed = set()
        self.live_in = self._liveness(order, self.succs)
        self._live_unw = None

    @property
    def live_unw(self):
        """Liveness that also counts what the clean-up blocks need when a call unwinds."""
        if self._live_unw is None:
            def succs(b):
                t = self.blocks[b]['t']
                r = list(self.succs(b))
                if t.get('u') is not None:
                    r.append(t['u'])
                return r
            order, seen = [], set()

            def go(b):
                st = [(b, iter(succs(b)))]
                seen.add(b)
                while st:
                    x, it = st[-1]
                    nx = next(it, None)
                    if nx is None:
                        order.append(x)
                        st.pop()
                    elif nx not in seen:
                        seen.add(nx)
                        st.append((nx, iter(succs(nx))))
            go(0)
            order.reverse()
            save = set(self.borrowed)
            self._live_unw = self._liveness(order, succs)
            self.borrowed = save
        return self._live_unw

    def _liveness(self, order, succs):
        use = {}
        dfn = {}
        for b in order:
            u, d = set(), set()

            def useop(o):
                if o['k'] in ('copy', 'move'):
                    usepl(o['pl'])

            def usepl(pl):
                if pl['l'] not in d:
                    u.add(pl['l'])
                for e in pl['p']:
                    if e[0] == 'i' and e[1] not in d:
                        u.add(e[1])

            def defpl(pl):
                if pl['p']:
                    usepl(pl)
                else:
                    d.add(pl['l'])
            for s in self.blocks[b]['s']:
                if s['k'] == '=':
                    r = s['r']
                    k = r['k']
                    if k in ('use', 'repeat', 'cast', 'un'):
                        useop(r['a'])
                    elif k == 'bin':
                        useop(r['a'])
                        useop(r['b'])
                    elif k in ('ref', 'rawptr'):
                        usepl(r['pl'])
                        if not any(e[0] == '*' for e in r['pl']['p']):
                            self.borrowed.add(r['pl']['l'])
                    elif k == 'discr':
                        usepl(r['pl'])
                    elif k == 'agg':
                        for o in r['ops']:
                            useop(o)
                    defpl(s['pl'])
                elif s['k'] == 'sd':
                    usepl(s['pl'])
            t = self.blocks[b]['t']
            k = t['k']
            if k == 'switch':
                useop(t['d'])
            elif k == 'call':
                useop(t['f'])
                for o in t['a']:
                    useop(o)
                defpl(t['d'])
            elif k == 'drop':
                usepl(t['pl'])
            elif k == 'assert':
                useop(t['c'])
                m = t['m']
                for key in ('len', 'index', 'a', 'b'):
                    if key in m:
                        useop(m[key])
            elif k == 'return':
                u.add(0)
            use[b] = u
            dfn[b] = d
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in succs(b):
                    o |= live[s]
                i = use[b] | (o - dfn[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        return live

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom[b]
            if n == b:
                return False
            b = n

    def calls(self):
        """Every call terminator on reachable non-cleanup blocks: (block, term)."""
        for b in self.rpo:
            t = self.blocks[b]['t']
            if t['k'] == 'call':
                yield b, t


class Program:
    def __init__(self, path):
        self.raw, self.renamed = names.apply(json.load(open(path)))
        self.types = [Ty(t) for t in self.raw['types']]
        self.adts = self.raw['adts']
        self.adts_c = {canon(k): v for k, v in self.adts.items()}
        self.fns = {}
        self.raw_fns = self.raw['fns']
        self._bodies = {}
        self.by_canon = {}
        for n in self.raw_fns:
            self.by_canon[canon(n)] = n
        self.impls = self.raw['impls']
        self.unsafe = [u for u in self.raw['unsafe'] if u]
        # local Drop impls: adt path -> fn name
        self.drops = {}
        for n, f in self.raw_fns.items():
            if f.get('trait') == 'std::ops::Drop' and f.get('name') == 'drop':
                t = self.types[f['self']]
                self.drops[t.adt] = n

    def find(self, name):
        """Raw function name for a path (with or without generics)."""
        if name in self.raw_fns:
            return name
        return self.by_canon.get(canon(name))

    def body(self, name, promoted=None):
        key = (name, promoted)
        b = self._bodies.get(key)
        if b is None:
            raw = self.raw_fns[name]
            if promoted is not None:
                b = Body(self, f'{name}::promoted[{promoted}]', raw['promoted'][promoted])
            else:
                b = Body(self, name, raw)
            self._bodies[key] = b
        return b

    def fn_bodies(self):
        for n, f in self.raw_fns.items():
            if f['kind'] in ('Fn', 'AssocFn', 'Closure'):
                yield n, self.body(n)

    def adt(self, p):
        return self.adts.get(p) or self.adts_c.get(canon(p))


def decode_template(bs):
    """core::fmt::Arguments template -> list of str | int (argument index); None if options change the value."""
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(bytes(bs[i:i + n]).decode('utf8', 'replace'))
            i += n
        elif n == 0x80:
            l = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + l]).decode('utf8', 'replace'))
            i += l
        else:
            arg = nxt
            opt = []
            if n & 1:
                opt.append(('flags', bytes(bs[i:i + 4])))
                i += 4
            if n & 2:
                opt.append(('width', bs[i] | bs[i + 1] << 8))
                i += 2
            if n & 4:
                opt.append(('prec', bs[i] | bs[i + 1] << 8))
                i += 2
            if n & 8:
                arg = bs[i] | bs[i + 1] << 8
                i += 2
            nxt = arg + 1
            out.append((arg, tuple(opt)))
    return out
