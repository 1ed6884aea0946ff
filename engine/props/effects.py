"""What the code can reach at all: unsafe code, the world outside its connections, and state that outlives a request (effects over the call graph)."""
from ck import *
from mir import canon

SERVE = ('server::server::exec_stream', 'server::server::loop_exec', 'server::server::handle_connection')
CLIENT = 'client::client::HttpClient::'
CONTEXT = 'server::context::Context::'
OUTSIDE = (('std::fs::', 'the file system'), ('std::process::', 'processes'), ('std::env::', 'the environment'), ('std::os::', 'the operating system'), ('std::net::UdpSocket', 'other sockets'),
           ('std::net::TcpListener', 'other sockets'), ('std::io::stdin', 'the standard input'), ('std::io::Stdin', 'the standard input'), ('libc::', 'the operating system'), ('std::panic::set_hook', 'the panic hook'),
           ('std::panic::take_hook', 'the panic hook'), ('log::set_', 'the log settings'), ('log4rs::', 'the log settings'))
CONNECT = ('std::net::TcpStream::connect', 'std::net::ToSocketAddrs::to_socket_addrs', 'std::net::UdpSocket')
SHARED = ('Mutex', 'RwLock', 'Cell', 'RefCell', 'UnsafeCell', 'OnceCell', 'OnceLock', 'Condvar', 'ArrayQueue', 'SegQueue', 'Sender', 'Receiver', 'AtomicCell')
TAKES = {'std::sync::RwLock::write', 'std::sync::RwLock::try_write', 'std::sync::RwLock::get_mut', 'std::sync::Mutex::lock', 'std::sync::Mutex::try_lock', 'std::sync::Arc::get_mut', 'std::sync::Arc::make_mut'}


class Graph:
    def __init__(self, p):
        self.p = p
        self.kids = {}
        for m in p.raw_fns:
            i = m.find('::{closure')
            if i > 0:
                self.kids.setdefault(m[:i], []).append(m)
        self._d = {}

    def facts(self, n):
        """(crate functions mentioned, library functions mentioned with their type arguments, statics mentioned)"""
        if n in self._d:
            return self._d[n]
        own, lib, stat = set(self.kids.get(n, ())), [], []
        st = [self.p.raw_fns[n]]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('k') == 'fn' or 'rlocal' in x:
                    t = x.get('r') if x.get('rlocal') else (x.get('path') if x.get('local') else None)
                    if t:
                        own.add(t)
                    if not (x.get('rlocal') or x.get('local')):
                        lib.append((canon(x.get('path') or ''), canon(x.get('r') or x.get('path') or ''), tuple(a for a in x.get('targs') or () if isinstance(a, int))))
                if x.get('static'):
                    stat.append((x['static'], x.get('ty')))
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
        self._d[n] = own, lib, stat
        return self._d[n]

    def reach(self, roots):
        seen, todo = {}, [(r, None) for r in roots]
        while todo:
            n, by = todo.pop()
            if n in seen or n not in self.p.raw_fns:
                continue
            seen[n] = by
            todo += [(m, n) for m in self.facts(n)[0]]
        return seen

    def path(self, seen, n):
        r = []
        while n is not None and len(r) < 8:
            r.append(n.split('::')[-1] if '{' not in n else '::'.join(n.split('::')[-2:]))
            n = seen[n]
        return ' <- '.join(r)

    def types(self, ti, stop=()):
        """A type and everything a value of it owns or shares, through arguments and fields"""
        seen, todo = set(), [ti]
        while todo:
            t = todo.pop()
            if t is None or t in seen:
                continue
            seen.add(t)
            ty = self.p.types[t]
            todo += [a for a in ty.args if isinstance(a, int)]
            todo += [x for x in (ty.raw.get('elem'), ty.raw.get('to'), ty.raw.get('inner')) if isinstance(x, int)]
            a = self.p.adts.get(ty.adt) if ty.k == 'adt' else None
            if a and a.get('local') and ty.adt not in stop:
                for v in a['v']:
                    todo += [f['ty'] for f in v['f']]
        return seen

    def shared(self, ti, stop=()):
        """The types in it that can be changed through a shared reference"""
        r = set()
        for t in self.types(ti, stop):
            ty = self.p.types[t]
            if ty.k == 'adt' and ty.adt not in stop:
                last = ty.adt.split('::')[-1]
                if last in SHARED or last.startswith('Atomic'):
                    r.add(ty.s)
        return r


def p65(ck):
    ck.rule('no function, block, trait implementation or static of the crate is unsafe, so every access is checked by the compiler or at run time, and no memory is shared between threads without synchronisation')
    n = 0
    for u in ck.p.unsafe:
        n += 1
        b = u['b']
        own = b.get('user') and b.get('macro_crate', '') in ('', ck.p.raw['crate'])
        ck.ob(not own, f'unsafe:{u["fn"]}', b.get('sp'), f'{u["fn"]} contains ' + ('a static that can be changed without synchronisation' if b.get('static_mut') else 'unsafe code'))
    for f, x in sorted(ck.p.raw_fns.items()):
        n += 1
        ck.fns.add(f)
        ck.ob(not x.get('unsafe'), f'fn:{f}', x.get('sp') or f, f'{f} is an unsafe function')
    for i in ck.p.raw['impls']:
        n += 1
        ck.ob(not i['unsafe'] or i['trait'] in ('std::clone::TrivialClone', 'std::marker::StructuralPartialEq'), f'impl:{i["trait"]}:{i["sp"]}', i['sp'], f'{ck.p.types[i["self"]].s} implements {i["trait"]} by an unsafe claim')
    ck.floor('functions, blocks and implementations examined', n, 400)


def roots(ck):
    return [ck.fn(r) for r in SERVE] + [n for n in ck.p.raw_fns if n.startswith(CONTEXT) and '{' not in n]


def p66(ck):
    ck.rule('over every function that can be reached from the handling of a connection, the context and the client: nothing outside their connections is touched; serving makes no connection of its own, '
            'uses no process-wide or thread-local state that can change, and never takes the routes for writing; nothing in the routes can change while they are only read, except the state of the rate limits')
    g = Graph(ck.p)
    srv = g.reach(roots(ck))
    cli = g.reach([n for n in ck.p.raw_fns if n.startswith(CLIENT) and '{' not in n])
    calls = 0
    for who, seen in (('serving', srv), ('the client', cli)):
        for f in sorted(seen):
            ck.fns.add(f)
            for path, r, targs in g.facts(f)[1]:
                calls += 1
                for pre, what in OUTSIDE:
                    ck.ob(not (path.startswith(pre) or r.startswith(pre)), f'outside:{f}:{path}', ck.sp(f), f'{who} touches {what}: {path} in {g.path(seen, f)}')
    for f in sorted(srv):
        for path, r, targs in g.facts(f)[1]:
            ck.ob(not path.startswith(CONNECT), f'connect:{f}:{path}', ck.sp(f), f'serving makes a connection of its own: {path} in {g.path(srv, f)}')
            ck.ob(not path.startswith('std::thread::LocalKey'), f'local:{f}', ck.sp(f), f'serving keeps state in its thread, where the next request finds it: {g.path(srv, f)}')
            if path in TAKES:
                ts = {ck.p.types[t].adt for a in targs for t in g.types(a)}
                ck.ob(not any(x and x.startswith(('server::node::', 'server::router::')) for x in ts), f'routes:{f}', ck.sp(f), f'serving takes the routes for writing ({path}) in {g.path(srv, f)}')
        for s, ty in g.facts(f)[2]:
            can = g.shared(ty) if isinstance(ty, int) else {'?'}
            ck.ob(not can, f'static:{f}:{s}', ck.sp(f), f'serving uses the process-wide state {s}, which can change ({sorted(can)[:2]}), in {g.path(srv, f)}')
    nodes = 0
    for t in ck.p.types:
        if t.k == 'adt' and t.adt == 'server::node::Root':
            nodes += 1
            i = ck.p.types.index(t)
            can = g.shared(i, stop=('server::limit::Limit',))
            ck.ob(not can, 'shared', t.adt, f'the routes contain {sorted(can)!r}, which can change while requests are served')
    ck.floor('functions reachable while serving', len(srv), 150)
    ck.floor('functions reachable in the client', len(cli), 60)
    ck.floor('calls judged', calls, 800)
    ck.floor('route types', nodes, 1)


PROPS = {'P65': p65, 'P66': p66}
