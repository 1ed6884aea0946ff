"""Lock discipline: what may happen while a lock is held. A dataflow over the compiler's IR (which guards may be alive at each call, on every
path) joined with the effects of every callee over the call graph (locks taken, application code entered, waiting for somebody else)."""
from ck import *
from mir import canon

GUARDS = {'std::sync::MutexGuard', 'std::sync::RwLockReadGuard', 'std::sync::RwLockWriteGuard', 'std::sync::poison::mutex::MutexGuard',
          'std::sync::ReentrantLockGuard', 'std::sync::MappedMutexGuard', 'std::sync::MappedRwLockReadGuard', 'std::sync::MappedRwLockWriteGuard'}
TAKE = {f'std::sync::{a}': m for a, m in (('Mutex::lock', 'lock'), ('RwLock::read', 'read'), ('RwLock::write', 'write'))}
TRY = {'std::sync::Mutex::try_lock', 'std::sync::RwLock::try_read', 'std::sync::RwLock::try_write'}
WAITS = {'std::thread::sleep': 'sleep', 'std::thread::JoinHandle::join': 'the end of a thread', 'std::thread::park': 'unpark', 'std::thread::park_timeout': 'unpark', 'std::net::TcpStream::connect': 'a connection',
         'std::net::TcpStream::connect_timeout': 'a connection', 'std::net::TcpListener::accept': 'a connection', 'std::net::ToSocketAddrs::to_socket_addrs': 'the name service',
         'std::sync::Condvar::wait': 'a condition', 'std::sync::Condvar::wait_while': 'a condition', 'std::sync::Condvar::wait_timeout': 'a condition', 'std::sync::Barrier::wait': 'a barrier', 'std::thread::sleep_ms': 'sleep'}
CHAN = ('crossbeam::crossbeam_channel::', 'crossbeam_channel::', 'std::sync::mpsc::')
SENDS = {'send', 'send_timeout', 'send_deadline'}
RECVS = {'recv', 'recv_timeout', 'recv_deadline', 'iter', 'into_iter'}
IO = {'std::io::Read', 'std::io::Write', 'std::io::BufRead'}
LEAKS = ('std::mem::forget', 'std::mem::ManuallyDrop::new', 'std::boxed::Box::leak', 'std::boxed::Box::into_raw')
CALLS = {'std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'}


class Locks:
    def __init__(self, p):
        self.p = p
        self._g = {}
        self._deep = {}
        self.owners = []      # the types of the crate, each with all types in its fields
        for n, a in p.adts.items():
            if a.get('local', True):
                self.owners.append((n, {p.types[t].s for v in a.get('v', ()) for t in self.field_types(v) for t in self.closure(t)}))
        self.eff = {n: set() for n in p.raw_fns}
        self.solve()

    # -------------------------------------------------------------- types
    def field_types(self, v):
        return [f['ty'] for f in v['f'] if f['ty'] is not None]

    def closure(self, ti):
        """A type and the types in its arguments"""
        seen, wl = set(), [ti]
        while wl:
            t = wl.pop()
            if t in seen:
                continue
            seen.add(t)
            ty = self.p.types[t]
            wl += [a for a in ty.args if isinstance(a, int)]
            wl += [x for x in (ty.raw.get('elem'), ty.raw.get('to'), ty.raw.get('inner')) if isinstance(x, int)]
        return seen

    def guards(self, ti, deep=()):
        """(kind, protected) of the lock guards a value of this type owns"""
        r = self._g.get(ti)
        if r is not None:
            return r
        if ti in deep:
            return frozenset()
        ty = self.p.types[ti]
        out = set()
        if ty.k == 'adt':
            n = canon(ty.adt)
            if n.split('::')[-1] in {x.split('::')[-1] for x in GUARDS} and 'sync' in n or 'lock_api' in n and n.endswith('Guard'):
                out.add(self.p.types[ty.args[-1]].s if ty.args else '?')
            elif n.split('::')[-1] not in ('PhantomData',):
                for a in ty.args:
                    if isinstance(a, int):
                        out |= self.guards(a, deep + (ti,))
                if ty.local:
                    a = self.p.adts.get(ty.adt)
                    for v in (a or {}).get('v', ()):
                        for f in self.field_types(v):
                            out |= self.guards(f, deep + (ti,))
        elif ty.k not in ('ref', 'ptr', 'fn', 'fndef', 'closure', 'prim', 'dyn'):
            for a in ty.args:
                if isinstance(a, int):
                    out |= self.guards(a, deep + (ti,))
        elif ty.k == 'closure':
            for a in ty.args:
                out |= self.guards(a, deep + (ti,))
        r = frozenset(out)
        if not deep:
            self._g[ti] = r
        return r

    def waits_on(self, ti):
        """Does reading from or writing to such a value wait for a peer?"""
        ty = self.p.types[ti]
        if ty.k in ('param', 'dyn', 'alias'):
            return True
        return any(self.p.types[t].k == 'param' or (self.p.types[t].adt or '').startswith(('std::net::', 'std::process::', 'std::os::')) or (self.p.types[t].adt or '').startswith('std::io::Stdin') for t in self.closure(ti))

    def closures(self, targs):
        return [self.closure_fn(t) for t in targs if self.p.types[t].k == 'closure']

    def closure_fn(self, ti):
        raw = self.p.types[ti].raw
        return raw.get('def') or raw.get('adt')

    # -------------------------------------------------------------- effects
    def direct(self, b, t):
        """What a call does by itself, and the functions of the crate that run during it"""
        f = t['f']
        if f['k'] != 'fn':
            return {('user', 'a function pointer')}, [], {}
        p = canon(f['path'])
        r = canon(f.get('r') or f['path'])
        ta = f.get('targs') or []
        last = p.split('::')[-1]
        e, runs, sub = set(), [], {}
        if p in TAKE:
            e.add(('take', self.p.types[ta[0]].s, TAKE[p]))
        elif p in WAITS:
            e.add(('wait', WAITS[p]))
        elif p.startswith(CHAN):
            el = self.p.types[ta[0]].s if ta else '?'
            kind = p.split('::')[-2]
            if kind in ('Sender', 'SyncSender') and last in SENDS:
                e.add(('chan', 'send', el))
            elif kind == 'Receiver' and last in RECVS:
                e.add(('chan', 'recv', el))
            elif last in ('bounded', 'sync_channel'):
                e.add(('make', 'bounded', el))
            elif last in ('unbounded', 'channel'):
                e.add(('make', 'unbounded', el))
        elif f.get('trait') in IO and ta and not f.get('rlocal') and self.waits_on(ta[0]):
            e.add(('wait', 'the peer of a stream'))
        elif p in CALLS and ta:
            ty = self.p.types[ta[0]]
            if ty.k == 'param':
                e.add(('call', ty.s))
            elif ty.k != 'closure':
                e.add(('user', f'a {ty.s}'))
        elif f.get('rk') == 'virtual' and f.get('trait'):
            runs += self.implementors(f['trait'], last)
        if f.get('r') in self.p.raw_fns:
            runs.append(f['r'])
        elif f['path'] in self.p.raw_fns:
            runs.append(f['path'])
        elif f.get('local') and f.get('trait'):
            runs += self.implementors(f['trait'], last)
        else:
            if not ('spawn' in last or p.startswith(('std::boxed::', 'std::sync::Arc'))):
                runs += [c for c in self.closures(ta) if c in self.p.raw_fns]
                for x in ta:
                    if self.p.types[x].k == 'param' and p not in CALLS and last in ('map', 'and_then', 'for_each', 'unwrap_or_else', 'call', 'map_err', 'filter', 'catch_unwind'):
                        e.add(('call', self.p.types[x].s))
        return e, runs, ta

    def implementors(self, trait, name):
        return [n for n, f in self.p.raw_fns.items() if f.get('trait') == trait and f.get('name') == name]

    def through(self, callee, e, ta):
        """An effect of a callee seen from the call: its type parameter becomes the argument"""
        k = e[0]
        if k in ('chan', 'make') and e[2] in self.params(callee, ta):
            return (k, e[1], self.params(callee, ta)[e[2]])
        if k == 'take' and e[1] in self.params(callee, ta):
            return (k, self.params(callee, ta)[e[1]], e[2])
        return e

    def params(self, callee, ta):
        names = self.p.raw_fns[callee].get('generics')
        if names is None:
            names = ['T'] if len(ta) >= 1 else []
        return {n: self.p.types[t].s for n, t in zip(names, ta)}

    def at(self, b, t):
        """All effects of a call, over the call graph"""
        if t['k'] == 'drop':
            return {e for d in self.dropped(t) for e in self.eff[d] if e[0] != 'take' or e in self.always(d)}
        e, runs, ta = self.direct(b, t)
        out = set(e)
        for r in runs:
            for x in self.eff[r]:
                if x[0] == 'call':
                    cl = [c for c in self.closures(ta or []) if c in self.p.raw_fns]
                    if cl:
                        for c in cl:
                            out |= self.eff[c]
                    elif any(self.p.types[a].k == 'param' for a in ta or ()):
                        out.add(x)
                    else:
                        out.add(('user', f'a callback of {r}'))
                else:
                    out.add(self.through(r, x, ta or []))
        return out

    def always(self, n):
        """Locks a destructor takes on every path (what only the last owner does is not done while another one holds the lock)"""
        b = self.p.body(n)
        out = set()
        for bi in b.rpo:
            t = b.blocks[bi]['t']
            if t['k'] != 'call':
                continue
            es = {e for e in self.at(b, t) if e[0] == 'take'}
            if not es - out:
                continue
            seen, wl = {b.rpo[0]}, [b.rpo[0]] if b.rpo[0] != bi else []
            while wl:
                for s in b.succs(wl.pop()):
                    if s not in seen and s != bi:
                        seen.add(s)
                        wl.append(s)
            if not any(b.blocks[x]['t']['k'] == 'return' for x in seen - {bi}):
                out |= es
        return out

    def dropped(self, t):
        ti = t['pl'].get('ty', t.get('ty'))
        if ti is None:
            return []
        out, wl, seen = [], [ti], set()
        while wl:
            x = wl.pop()
            if x in seen:
                continue
            seen.add(x)
            ty = self.p.types[x]
            if ty.k in ('ref', 'ptr', 'fn', 'fndef'):
                continue
            if ty.adt in self.p.drops:
                out.append(self.p.drops[ty.adt])
            wl += [a for a in ty.args if isinstance(a, int)]
            if ty.local and ty.k == 'adt':
                for v in (self.p.adts.get(ty.adt) or {}).get('v', ()):
                    wl += self.field_types(v)
        return out

    def solve(self):
        bodies = list(self.p.fn_bodies())
        ch = True
        while ch:
            ch = False
            for n, b in bodies:
                s = set(self.eff[n])
                for bi in b.rpo:
                    t = b.blocks[bi]['t']
                    if t['k'] == 'call' or t['k'] == 'drop':
                        s |= self.at(b, t)
                if s != self.eff[n]:
                    self.eff[n] = s
                    ch = True

    # -------------------------------------------------------------- guards alive
    def place_ty(self, b, pl):
        ti = b.locals[pl['l']][0]
        for e in pl['p']:
            if e[0] == 'f' and len(e) > 3 and isinstance(e[3], int):
                ti = e[3]
        return ti

    def held(self, b):
        """block -> guards (local, protected) that may be alive before its terminator, and where each came from"""
        own = {i: self.guards(l[0]) for i, l in enumerate(b.locals)}
        own = {i: g for i, g in own.items() if g}
        ins = {bi: None for bi in b.rpo}
        ins[b.rpo[0]] = frozenset((i, c) for i in range(1, b.argc + 1) for c in own.get(i, ()))
        before = {}
        wl = [b.rpo[0]]

        def move(cur, o):
            if o['k'] == 'move' and o['pl']['l'] in own:
                if not o['pl']['p'] or self.guards(self.place_ty(b, o['pl'])):
                    return {x for x in cur if x[0] != o['pl']['l']}
            return cur
        while wl:
            bi = wl.pop()
            cur = set(ins[bi])
            for s in b.blocks[bi]['s']:
                if s['k'] == '=':
                    r = s['r']
                    for o in [r[x] for x in ('a', 'b') if isinstance(r.get(x), dict) and 'k' in r[x]] + list(r.get('ops', ())):
                        cur = move(cur, o)
                    d = s['pl']['l']
                    if d in own:
                        cur |= {(d, c) for c in own[d]}
                elif s['k'] == 'dead':
                    cur = {x for x in cur if x[0] != s['l']}
            t = b.blocks[bi]['t']
            after = set(cur)
            if t['k'] == 'call':
                passed = set(cur)
                for o in t['a']:
                    after = move(after, o)
                # a guard that is moved into the call is given up there: what the call does happens while it may be alive, except giving it back
                give = passed - after
                before[bi] = (frozenset(after), frozenset(give))
                d = t['d']['l']
                if d in own:
                    after |= {(d, c) for c in own[d]}
            elif t['k'] == 'drop':
                pl = t['pl']
                if pl['l'] in own and (not pl['p'] or self.guards(self.place_ty(b, pl))):
                    after = {x for x in after if x[0] != pl['l']}
                before[bi] = (frozenset(after), frozenset())
            for s in b.succs(bi):
                n = frozenset(after) if ins[s] is None else ins[s] | after
                if n != ins[s]:
                    ins[s] = n
                    wl.append(s)
        return before


def bare(s):
    return s.split('<')[0] if '<' in s else s


def p15(ck):
    p = ck.p
    L = Locks(p)
    ck.rule('at every call made while a lock guard may be alive: no lock that is already held is taken, the order in which locks are taken has no cycle, no application code (handler, filter, task, callback) is entered, '
            'and nothing waits for a peer, a timer or a thread; waiting on a channel is allowed only under the lock that belongs to it (same owner), whose other end never needs that lock')
    made = {}
    for n, es in L.eff.items():
        for e in es:
            if e[0] == 'make':
                made.setdefault(e[2], set()).add(e[1])
    order, sites, takes, n_fn = {}, 0, 0, 0
    under = {}
    for n, b in p.fn_bodies():
        n_fn += 1
        ck.fns.add(n)
        before = L.held(b)
        for bi in b.rpo:
            t = b.blocks[bi]['t']
            if t['k'] not in ('call', 'drop') or bi not in before:
                continue
            h, give = before[bi]
            sp = t.get('sp', b.span)
            if t['k'] == 'call' and t['f']['k'] == 'fn':
                cp = canon(t['f']['path'])
                takes += cp in TAKE
                if give and cp in LEAKS:
                    ck.ob(False, f'leak:{n}', sp, f'{n} gives the guard of a lock to {cp}: the lock is never released')
            prot = {c for _, c in h}
            if not prot:
                continue
            sites += 1
            names = sorted(bare(c) for c in prot)
            who = t['f'].get('path', 'a function pointer') if t['k'] == 'call' else 'a destructor'
            for e in sorted(L.at(b, t)):
                if e[0] == 'take':
                    ck.ob(e[1] not in prot, f'again:{n}:{bare(e[1])}', sp, f'{n} calls {who} with the lock of {bare(e[1])} held, which takes it again ({e[2]})')
                    for c in prot:
                        order.setdefault(c, {}).setdefault(e[1], (n, sp))
                elif e[0] in ('user', 'call'):
                    ck.ob(False, f'code:{n}', sp, f'{n} calls {who} with the lock of {names} held, which enters application code ({e[1]})')
                elif e[0] == 'wait':
                    ck.ob(False, f'wait:{n}', sp, f'{n} calls {who} with the lock of {names} held, which waits for {e[1]}')
                elif e[0] == 'chan':
                    kinds = made.get(e[2]) or {'bounded'}
                    if e[1] == 'send' and kinds == {'unbounded'}:
                        ck.ob(True, f'send:{n}', sp, '')
                        continue
                    for c in prot:
                        under.setdefault((c, e[2]), set()).add(e[1])
                        mine = any(any('Mutex<' + c in s or 'RwLock<' + c in s for s in ts) and any(s.split('<')[0].split('::')[-1] in ('Channel', 'Sender', 'Receiver') and e[2] in s for s in ts) for _, ts in L.owners)
                        ck.ob(mine, f'chan:{n}', sp, f'{n} calls {who} with the lock of {bare(c)} held, which waits for the other end of a channel of {e[2]}')
    for (c, el), ops in sorted(under.items()):
        ck.ob(len(ops) < 2, f'ends:{bare(c)}', '', f'both ends of the channel of {el} wait with the lock of {bare(c)} held')
        for n, b in p.fn_bodies():
            other = [('chan', o, el) for o in ('send', 'recv') if o not in ops]
            es = {bi: L.at(b, b.blocks[bi]['t']) for bi in b.rpo if b.blocks[bi]['t']['k'] == 'call'}
            ends = {bi for bi, x in es.items() if any(o in x for o in other)}
            for bi, x in es.items():
                if not any(e[0] == 'take' and e[1] == c for e in x):
                    continue
                seen, wl = set(), list(b.succs(bi))
                while wl:
                    y = wl.pop()
                    if y not in seen:
                        seen.add(y)
                        wl += b.succs(y)
                ck.ob(not seen & ends, f'ends:{bare(c)}', b.blocks[bi]['t'].get('sp', ''), f'{n} takes the lock of {bare(c)} on its way to the channel of {el}, whose other end waits for it with that lock held')
    # the order
    for c in order:
        seen, wl, via = set(), [(x, w) for x, w in order[c].items() if x != c], {}
        while wl:
            x, w = wl.pop()
            if x in seen:
                continue
            seen.add(x)
            via[x] = w
            wl += [(y, z) for y, z in order.get(x, {}).items() if y != x]
        ck.ob(c not in seen, f'order:{bare(c)}', via.get(c, ('', ''))[1], f'the lock of {bare(c)} is taken after one that is taken after it ({via.get(c)})')
    ck.floor('functions', n_fn, 300)
    ck.floor('acquisitions', takes, 8)
    ck.floor('calls with a lock held', sites, 20)


PROPS = {'P15': p15}
