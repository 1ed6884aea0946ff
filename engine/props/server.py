"""Server: request pipeline, connection lifecycle, keep-alive checker, accept loop."""
from ck import *
import wire

EXEC = 'server::server::exec_stream'
LOOP = 'server::server::loop_exec'
CONN = 'server::server::handle_connection'
KEEP = 'server::server::check_keepalive'
FROM = 'http::requester::Requester::from'
XEXEC = 'server::extend::Extend::exec'
RECV = 'server::limit::Limit::recv'
RESP = 'server::context::Context::response'
REQRESP = 'http::requester::Requester::response'
LISTEN = 'server::server::HttpServer::listener'
POOLX = 'utils::concurrent::thread_pool::ThreadPool::execute'
SHUT = 'std::net::TcpStream::shutdown'
CLONE = 'std::net::TcpStream::try_clone'
CTX = 'server::context::Context'


def call_closure(ck, clo, opaque, st=None, **kw):
    """Abstract paths of running a closure value."""
    I = absint.Interp(ck.p, models.M, opaque=opaque, max_steps=100000, **kw)
    c = absint.Call()
    c.fn = c.sp = ''
    c.path, c.args, c.tys, c.site, c.chain, c.f = '@x', [], [], (0, 0), (('entry', 'x'),), {}
    outs = I.call_value(st or absint.State({}, {}, absint.NIL), clo, [], c)
    ck.account(I, outs)
    return [Path(I, s, v) for s, v in outs]


def is_clone(I, st, v, stream):
    """v is the stream itself or a clone of it made with try_clone"""
    v = I.strip(st, v)
    if v is stream:
        return True
    for x in subterms(v):
        if x.op == 'call' and x.a[0] == CLONE:
            return any(y is stream for y in subterms(x)) and v is fld(project(x, ('as', 'Ok')), '0')
    return False


def shut_events(p):
    return [e for e in p.evs(deep=False) if e.a[0] == SHUT]


def p05_exec(ck):
    ck.rule('a routed request runs the matched route\'s extension (if any) once before anything else, then the matched route\'s handler '
            'exactly once iff nothing answered the request; a rejected request runs neither')
    called = {}

    def on_call(st, c, name, rpath):
        if name == '@icall':
            pass
    ps = ck.run(EXEC, nojoin=True, opaque={FROM, XEXEC}, keep=lambda n: n == '@icall' or n in (FROM, XEXEC, REQRESP))
    del called, on_call
    names = [ck.p.body(ck.fn(EXEC)).lname(i + 1) for i in range(ck.p.body(ck.fn(EXEC)).argc)]
    nh = nx = 0
    for p in ps:
        I, st = p.I, p.st
        ev = p.evs()
        fr = [e for e in ev if e.a[0] == FROM]
        if not ck.ob(len(fr) == 1 and ev[0] is fr[0], 'one-request', ck.sp(EXEC), f'{len(fr)} requests are read'):
            continue
        ck.ob(all(I.strip(st, a) is A(n) for a, n in zip(eargs(fr[0]), names)), 'from:args', ewhere(fr[0]), f'the request is read with {eargs(fr[0])!r}')
        r = eret(fr[0])
        xs = [e for e in ev if e.a[0] == XEXEC]
        hs = [e for e in ev if e.a[0] == '@icall']
        if I.variant_of(st, r) == 'Err':
            ck.ob(not xs and not hs, 'rejected', ck.sp(EXEC), 'a rejected request still reaches an extension or handler')
            ck.ob(p.ret is TRUE, 'rejected:close', ck.sp(EXEC), 'the connection of a rejected request is kept open')
            continue
        ok = fld(project(r, ('as', 'Ok')), '0')
        req, node, fields = fld(ok, '0'), fld(ok, '1'), fld(ok, '2')
        ck.ob(equiv(I, st, p.ret, fld(req, 'request', 'close')), 'close', ck.sp(EXEC),
              f'whether the connection is closed is {p.ret!r} instead of what the request says')
        ext = I.variant_of(st, fld(node, 'extend'))
        if not ck.ob(ext is not None, 'ext:checked', ck.sp(EXEC), 'the extension of the route is not looked at'):
            continue
        nx += ext == 'Some'
        ck.ob(len(xs) == (1 if ext == 'Some' else 0), f'ext:{ext}', ck.sp(EXEC), f'the extension of the route is run {len(xs)} times')
        if xs:
            ck.ob(I.strip(st, eargs(xs[0])[0]) is some_of(fld(node, 'extend')) or einfo(xs[0])[0] is some_of(fld(node, 'extend')), 'ext:which',
                  ewhere(xs[0]), 'another extension is run than that of the matched route')
            ctx = einfo(xs[0])[1]
            check_ctx(ck, ctx, req, fields, xs[0])
            left = project(T('eff', XEXEC, 1, eff_site(xs[0]), ctx), 'executed') if False else None
            del left
        answered = answered_of(I, st, xs)
        if answered is True:
            ck.ob(not hs, 'handler:answered', ck.sp(EXEC), 'the handler runs although the extension already answered')
        elif answered is False:
            nh += 1
            if ck.ob(len(hs) == 1, 'handler:once', ck.sp(EXEC), f'the handler runs {len(hs)} times'):
                h = hs[0]
                ck.ob(equiv(I, st, Some(eargs(h)[0]), fld(node, 'handler')), 'handler:which', ewhere(h),
                      f'the function that runs is {eargs(h)[0]!r} instead of the handler of the matched route')
                ck.ob(not xs or ev.index(xs[0]) < ev.index(h), 'handler:order', ewhere(h), 'the handler runs before the extension')
                ctx = einfo(h)[1]
                b = ctx
                while b.op == 'eff':
                    b = b.a[3]
                check_ctx(ck, b, req, fields, h)
                ck.ob(not xs or ctx.op == 'eff', 'handler:same-context', ewhere(h), 'the handler gets another context than the extension')
        else:
            ck.ob(False, 'handler:undecided', ck.sp(EXEC), 'the handler runs, or not, without looking at whether the request was answered')
    ck.floor('routed paths', nh, 2)
    ck.floor('extension paths', nx, 2)


TRUE, FALSE = Bool(True), Bool(False)


def eff_site(e):
    return None


def answered_of(I, st, xs):
    if not xs:
        return False
    for k, v in st.facts.items():
        if isinstance(k, T) and k.op == 'f' and k.a[1] == 'executed' and k.a[0].op == 'eff' and k.a[0].a[0] == XEXEC:
            return v
    return None


def check_ctx(ck, ctx, req, fields, e):
    ck.ob(fld(ctx, 'requester') is req, 'ctx:requester', ewhere(e), f'the context carries another request: {fld(ctx, "requester")!r}'[:300])
    ck.ob(fld(ctx, 'fields') is fields, 'ctx:fields', ewhere(e), f'the context carries other path parameters: {fld(ctx, "fields")!r}'[:300])
    ck.ob(fld(ctx, 'executed') is FALSE, 'ctx:fresh', ewhere(e), 'the context starts as already answered')


def p05_extend(ck):
    ck.rule('the extension waits for its limiter first (if it has one), answers 403 and runs no filter when the limiter fails, else runs its '
            'filters in order until one has answered')
    guard = []

    def on_call(st, c, name, rpath):
        if name == '@icall':
            guard.append((st.copy(), (c.args, c.sp)))
    ps = ck.run(XEXEC, nojoin=True, opaque={RECV, RESP}, on_call=on_call,
                keep=lambda n: n == '@icall' or n in (RECV, RESP))
    names = [ck.p.body(ck.fn(XEXEC)).lname(i + 1) for i in range(2)]
    me, cx = deref(A(names[0])), A(names[1])
    lim, fil = fld(me, 'limit'), fld(me, 'filters')
    cases = set()
    for p in ps:
        I, st = p.I, p.st
        v = I.variant_of(st, lim)
        top = p.items
        rc = [i for i, x in enumerate(top) if x.op == 'ev' and x.a[0] == RECV]
        rs = [x for x in p.evs() if x.a[0] == RESP]
        ic = [x for x in p.evs() if x.a[0] == '@icall']
        if not ck.ob(v is not None, 'limit:checked', ck.sp(XEXEC), 'whether the route is limited is not looked at'):
            continue
        if v == 'Some':
            if not ck.ob(len(rc) == 1 and all(x.op == 'ev' for x in top[:rc[0]]) and not any(x.a[0] == '@icall' for x in top[:rc[0]]),
                         'limit:first', ck.sp(XEXEC), 'a limited route does not wait for its limiter exactly once before its filters'):
                continue
            e = top[rc[0]]
            ck.ob(einfo(e)[0] is some_of(lim) or I.strip(st, eargs(e)[0]) is some_of(lim), 'limit:which', ewhere(e), 'another limiter is waited for')
            res = I.variant_of(st, eret(e))
            ck.ob(res is not None, 'limit:result', ewhere(e), 'the result of the limiter is ignored')
            if res == 'Err':
                cases.add('refused')
                ck.ob(not ic, 'limit:stop', ck.sp(XEXEC), 'filters run although the limiter failed')
                if ck.ob(len(rs) == 1, 'limit:answer', ck.sp(XEXEC), f'a refused request is answered {len(rs)} times'):
                    ctx = einfo(rs[0])[0]
                    want = absint.Interp(ck.p, models.M).eval_const(ck.fn('http::status::Status::FORBIDDEN'), None)
                    ck.ob(fld(ctx, 'response', 'status') is want, 'limit:403', ewhere(rs[0]),
                          f'a refused request is answered with {fld(ctx, "response", "status")!r}')
                continue
        else:
            ck.ob(not rc, 'limit:none', ck.sp(XEXEC), 'a route without limiter waits for one')
        cases.add('filters')
        ck.ob(not rs, 'filters:answer', ck.sp(XEXEC), 'an accepted request is answered before its handler')
        done = exhausted(I, st, fil)
        stop = any(isinstance(k, T) and val is True and k.op == 'f' and k.a[1] == 'executed' for k, val in st.facts.items())
        ck.ob(done or stop, 'filters:all', ck.sp(XEXEC), 'filters are left out although none of them answered')
    generic = False
    for st, (args, sp) in guard:
        f, a = args[0], args[1:]
        el = f
        ok = el.op == 'el' and el.a[0] is fil and (el.a[1].op == 'ix' or counter(ck.last, el.a[1]) or is_c(el.a[1], 'int'))
        generic = generic or ok and not is_c(el.a[1])      # the first rounds of a counting loop have their number
        ck.ob(ok, 'filters:order', sp, f'the function that runs is {f!r} instead of the next filter')
        I = ck.last
        cv = I.read(st, I.deref_addr(args[1]))
        ex = project(cv, 'executed')
        ck.ob(I.truth(st, ex) is False, 'filters:stop', sp, 'a filter runs although the request is already answered')
        ck.ob(len(a) == 1 and (a[0] is cx or a[0].op == 'ref' and a[0].a[0] == ('H', cx)), 'filters:ctx', sp, f'a filter gets {a!r}')
    ck.ob(generic or not guard, 'filters:each', ck.sp(XEXEC), 'only filters at fixed places run')
    ck.floor('filter calls', len(guard), 1)
    ck.floor('extension outcomes', len(cases), 2)


def p06_conn(ck):
    ck.rule('a connection: its first request is handled once; if the connection is to be closed the socket is shut down in both directions and '
            'nothing more is read, otherwise the keep-alive loop takes over with the same root, keep-alive time, addresses and compression flag')
    b = ck.p.body(ck.fn(CONN))
    n = [b.lname(i + 1) for i in range(b.argc)]
    ty = {b.ty(i + 1).s: n[i] for i in range(b.argc)}
    stream = A(next(v for k, v in ty.items() if 'TcpStream' in k))
    ps = ck.run(CONN, nojoin=True, opaque={EXEC, LOOP}, keep=lambda x: x in (EXEC, LOOP, SHUT, CLONE) or x.startswith('@drop:std::net'))
    cnt = {'close': 0, 'keep': 0}
    for p in ps:
        I, st = p.I, p.st
        ev = p.evs()
        ex = [e for e in ev if e.a[0] == EXEC]
        lo = [e for e in ev if e.a[0] == LOOP]
        sh = [e for e in ev if e.a[0] == SHUT]
        fail = [k for k, v in st.facts.items() if isinstance(k, T) and k.op == 'discr' and v == 'Err' and k.a[0].op == 'call' and k.a[0].a[0] == CLONE]
        if not ex:
            ck.ob(bool(fail) and not lo, 'conn:noexec', ck.sp(CONN), 'a connection is dropped without its request being read')
            continue
        if not ck.ob(len(ex) == 1, 'conn:once', ck.sp(CONN), f'the first request is handled {len(ex)} times'):
            continue
        e = ex[0]
        same_args(ck, 'conn:exec', p, e, EXEC, n, stream)
        r = I.truth(st, eret(e))
        if r is True:
            cnt['close'] += 1
            ck.ob(not lo, 'conn:closed', ck.sp(CONN), 'a connection that is to be closed is kept being read')
            good = [s for s in sh if is_clone(I, st, einfo(s)[0], stream) and both(I, st, einfo(s)[1])]
            ck.ob(len(good) >= 1 and ev.index(good[0]) > ev.index(e), 'conn:shutdown', ck.sp(CONN), 'a connection that is to be closed is not shut down in both directions')
        elif r is False:
            if fail:
                ck.ob(not lo, 'conn:fail', ck.sp(CONN), 'the loop runs on a stream that could not be cloned')
                continue
            cnt['keep'] += 1
            if ck.ob(len(lo) == 1, 'conn:loop', ck.sp(CONN), 'a kept connection is not read again'):
                same_args(ck, 'conn:loop', p, lo[0], LOOP, n, stream)
            ck.ob(not sh, 'conn:noshut', ck.sp(CONN), 'a kept connection is shut down')
        else:
            ck.ob(False, 'conn:undecided', ck.sp(CONN), 'whether the connection is to be closed is not looked at')
    ck.floor('closed connections', cnt['close'], 1)
    ck.floor('kept connections', cnt['keep'], 1)


def both(I, st, v):
    v = I.strip(st, v)
    return v.op == 'agg' and v.a[1] == 'Both'


def same_args(ck, key, p, e, callee, names, stream, env=None):
    """Every parameter of the callee that the caller has by the same type and role is passed on unchanged."""
    b = ck.p.body(ck.fn(callee))
    for i in range(b.argc):
        cn = b.lname(i + 1)
        v = p.I.strip(p.st, einfo(e)[i])
        if 'TcpStream' in b.ty(i + 1).s:
            ck.ob(is_clone(p.I, p.st, v, stream), f'{key}:{cn}', ewhere(e), f'the stream handled is {v!r}')
        else:
            want = (env or {}).get(cn, A(cn))
            ck.ob(v is want, f'{key}:{cn}', ewhere(e), f'{cn} is {v!r}')


def p06_loop(ck):
    ck.rule('the keep-alive loop: starts one expiry checker on a clone of the stream with the keep-alive time and a shared channel before reading; '
            'after each request tells the checker to stop and ends if the connection is to be closed, else to restart the period; every way out '
            'after the checker started tells it to stop')
    b = ck.p.body(ck.fn(LOOP))
    n = [b.lname(i + 1) for i in range(b.argc)]
    stream = A(next(n[i] for i in range(b.argc) if 'TcpStream' in b.ty(i + 1).s))
    backs = []
    SEND = 'crossbeam::crossbeam_channel::Sender::send'
    TSEND = 'crossbeam::crossbeam_channel::Sender::try_send'
    SPAWN = ('std::thread::Builder::spawn', 'std::thread::spawn')
    ps = ck.run(LOOP, nojoin=True, opaque={EXEC, KEEP}, keep=lambda x: x in (EXEC, SEND, TSEND, CLONE, SHUT) + SPAWN,
                on_back=lambda f, h, s: backs.append((f, s)))
    I = ck.last
    kinds = {'close': 0, 'again': 0}

    def sends(items):
        return [x for x in items if x.op == 'ev' and x.a[0] in (SEND, TSEND)]

    def kind(e):
        v = einfo(e)[1]
        return v.a[1] if v.op == 'agg' else repr(v)

    def chan(e):
        return einfo(e)[0]
    clos = {}

    def checker(items, where):
        sp = [x for x in items if x.op == 'ev' and x.a[0] in SPAWN]
        if not ck.ob(len(sp) == 1, 'loop:checker', where, f'{len(sp)} expiry checkers are started'):
            return None
        clos[eargs(sp[0])[-1]] = sp[0]
        return sp[0]
    for p in ps:
        st = p.st
        top = [x for x in p.items if x.op == 'ev']
        spn = [x for x in top if x.a[0] in SPAWN]
        okspawn = [x for x in spn if I.variant_of(st, eret(x)) != 'Err']
        ex = [x for x in top if x.a[0] == EXEC]
        if not okspawn:
            ck.ob(not ex and not any(x.a[0] == EXEC for x in p.evs()), 'loop:nochecker', ck.sp(LOOP), 'requests are handled without an expiry checker')
            continue
        checker(top, ck.sp(LOOP))
        s = sends(top)
        ck.ob(len(s) == 1 and kind(s[0]) == 'Break', 'loop:end', ck.sp(LOOP), f'the loop ends with the checker being told {[kind(x) for x in s]}')
        if ex:
            e = ex[-1]
            kinds['close'] += 1
            same_args(ck, 'loop:exec', p, e, EXEC, n, stream)
            ck.ob(I.truth(st, eret(e)) is True, 'loop:end-why', ck.sp(LOOP), 'a connection that is to be kept is no longer read')
            ck.ob(s and top.index(s[0]) > top.index(e), 'loop:end-order', ck.sp(LOOP), 'the checker is stopped before the request is handled')
        else:
            ck.ob(any(isinstance(k, T) and k.op == 'discr' and v == 'Err' and k.a[0].op == 'call' and k.a[0].a[0] == CLONE for k, v in st.facts.items()),
                  'loop:end-fail', ck.sp(LOOP), 'the loop ends although nothing failed')
    for f, st in backs:
        items = absint.items_of(st.trace)
        cut = max([i for i, x in enumerate(items) if x.op == 'loop'], default=-1)
        it = items[cut + 1:]
        ex = [x for x in it if x.op == 'ev' and x.a[0] == EXEC]
        if not ex and not any(x.op == 'ev' and x.a[0] == CLONE for x in it):
            continue
        s = sends(it)
        kinds['again'] += 1
        ck.ob(len(ex) == 1, 'loop:one', ck.sp(LOOP), f'{len(ex)} requests are handled per round')
        ck.ob(ex and I.truth(st, eret(ex[0])) is False, 'loop:again-why', ck.sp(LOOP), 'a connection that is to be closed is read again')
        ck.ob([kind(x) for x in s] == ['Update'] and (not ex or it.index(s[0]) > it.index(ex[0])), 'loop:update', ck.sp(LOOP),
              f'after a request the checker is told {[kind(x) for x in s]}')
    for clo, e in clos.items():
        st = backs[-1][1] if backs else ps[-1].st
        qs = call_closure(ck, clo, {KEEP}, st=absint.State(st.store, st.facts, absint.NIL))
        for q in qs:
            k = [x for x in q.evs() if x.a[0] == KEEP]
            if ck.ob(len(k) == 1, 'loop:checker-runs', ewhere(e), 'the thread started does not run the expiry checker'):
                bk = ck.p.body(ck.fn(KEEP))
                for i in range(bk.argc):
                    v = q.I.strip(q.st, einfo(k[0])[i])
                    cn = bk.lname(i + 1)
                    if 'TcpStream' in bk.ty(i + 1).s:
                        ck.ob(is_clone(q.I, q.st, v, stream), 'checker:stream', ewhere(e), f'the checker watches {v!r}')
                    elif bk.ty(i + 1).s == 'i64':
                        ck.ob(v is A('keepalive'), 'checker:keepalive', ewhere(e), f'the checker waits {v!r}')
                    elif 'Channel' in bk.ty(i + 1).s:
                        ck.ob(any(x.op == 'call' and 'unbounded' in x.a[0] or 'bounded' in repr(x)[:30] for x in subterms(v)), 'checker:channel', ewhere(e),
                              f'the checker listens on {v!r}')
                        sent = {repr(x) for bb in backs for y in absint.items_of(bb[1].trace) if y.op == 'ev' and y.a[0] in (SEND, TSEND)
                                for x in subterms(chan(y)) if x.op == 'call'}
                        mine = {repr(x) for x in subterms(v) if x.op == 'call'}
                        ck.ob(bool(sent & mine), 'checker:same-channel', ewhere(e), 'the checker listens on another channel than the loop sends on')
    ck.floor('loop rounds', kinds['again'], 1)
    ck.floor('loop ends', kinds['close'], 1)
    ck.floor('checkers', len(clos), 1)


CLK, MSGS, TOLD = ('X', 'clock'), ('X', 'msgs'), ('X', 'told')


class Checker:
    """The expiry checker, followed through its first rounds. Every reading of the clock is its own unknown; every look into the channel yields
    a completed request, the word to stop, or nothing. Recorded per look: how many readings came before it and what it yielded."""

    def __init__(self, ck, stream, ka, looks):
        self.ck, self.stream, self.ka, self.looks = ck, stream, ka, looks
        self.n = dict(waits=0, updates=0)
        self.bad = {}

    def now(self, I, st, c):
        st = st.copy()
        k = st.store.get(CLK, Int(0)).a[1]
        if k > 3 * self.looks + 6:
            return []
        st.store[CLK] = Int(k + 1)
        st.store[TOLD] = T('iter', 'val', T('seq', Str('t')), Int(k))      # rounds are told apart
        return [(st, T('clk', k))]

    def elapsed(self, I, st, c):
        v = I.strip(st, c.args[0])
        return [(s, T('call', 'since', (t, v))) for s, t in self.now(I, st, c)]

    @staticmethod
    def clks(t):
        return sorted({x.a[0] for x in subterms(t) if x.op == 'clk'})

    def compared(self, st):
        """[(is the period over, what is compared, the reading of the clock, the readings it is compared with)] along this path"""
        out = []
        for k, v in st.facts.items():
            if not isinstance(k, T) or k.op != 'bin' or k.a[0] not in ('Lt', 'Le', 'Gt', 'Ge') or not holds(k, self.ka):
                continue
            op, x, y = k.a
            ks = self.clks(k)
            if len(ks) < 2:
                continue
            now = ks[-1]
            less = v if op in ('Lt', 'Le') else not v           # x before y
            over = (not less) if now in self.clks(x) else less
            out.append((over, k, now, ks[:-1]))
        return out

    def unit_ok(self, t):
        ka = self.ka
        if any(x.op == 'bin' and holds(x, ka) and not self.clks(x) for x in subterms(t)) or self.times(t) != 1:
            return False
        return not any(x.op == 'call' and x.a[0].split('::')[-1] in ('seconds', 'minutes', 'hours', 'microseconds', 'nanoseconds', 'from_secs', 'from_micros', 'from_nanos',
                                                                      'try_seconds', 'try_minutes', 'try_hours', 'days', 'weeks') and holds(x, ka)
                       and x.a[1] and any(y is ka for y in x.a[1]) for x in subterms(t)) and not any(
            x.op == 'call' and x.a[0].split('::')[-1] == 'sub' and any(holds(y, ka) for y in x.a[1][1:]) and not self.clks(T('tup', *x.a[1][:1]))  for x in subterms(t))

    def times(self, t):
        return 1 if t is self.ka else sum(self.times(y) for x in t.a for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, T))

    def msgs(self, st):
        return [(x.a[0], x.a[1]) for x in st.store.get(MSGS, T('seq')).a]

    def window(self, ms):
        """The readings from which the period may run: those taken around the last completed request"""
        for i in range(len(ms) - 1, -1, -1):
            if ms[i][1] == 'Update':
                return (ms[i - 1][0] if i else 0), (ms[i + 1][0] if i + 1 < len(ms) else 10 ** 9)
        return 0, (ms[0][0] if ms else 10 ** 9)

    def judged(self, st):
        """What the last look at the clock since the last look into the channel says: True over, False not over, None no (usable) look"""
        ms = self.msgs(st)
        since = ms[-1][0] if ms else 0
        lo, hi = self.window(ms)
        r = None
        for over, k, now, base in self.compared(st):
            if now < since:
                continue
            if not self.unit_ok(k):
                self.bad['keep:unit'] = f'the period is not the keep-alive time: {k!r}'
            elif not all(lo <= x < hi for x in base):
                self.bad['keep:update' if any(m == 'Update' for _, m in ms) else 'keep:first'] = (
                    f'the period does not run from the {"last completed request" if any(m == "Update" for _, m in ms) else "start"}: {k!r}')
            else:
                r = over
        return r

    def look(self, I, st, c):
        st = st.copy()
        ms = self.msgs(st)
        over = self.judged(st)
        self.n['waits'] += 1
        if ms and ms[-1][1] == 'Break':
            self.bad['keep:break'] = 'the checker goes on after it was told to stop'
        if over is None:
            self.bad['keep:deadline'] = 'the checker waits on without looking at the clock'
        elif over:
            self.bad['keep:wait'] = 'the checker goes on after the period is over'
        if len(ms) >= self.looks:
            return []
        k = st.store.get(CLK, Int(0)).a[1]
        out = []
        en = next(n for n in I.p.adts if n.split('::')[-1] == 'Check')
        for m in ('Update', 'Break', None):
            s = st.copy()
            s.store[MSGS] = T('seq', *s.store.get(MSGS, T('seq')).a, T('msg', k, m))
            if m == 'Update':
                self.n['updates'] += 1
            out.append((s, wire.errv(T('agg', 'crossbeam::crossbeam_channel::TryRecvError', 'Empty', (), ())) if m is None else wire.okv(T('agg', en, m, (), ()))))
        return out

    def overrides(self):
        o = {n: self.now for n in ('chrono::Local::now', 'chrono::Utc::now', 'std::time::Instant::now', 'std::time::SystemTime::now')}
        o['std::time::Instant::elapsed'] = o['std::time::SystemTime::elapsed'] = self.elapsed
        o.update({'crossbeam::crossbeam_channel::Receiver::' + n: self.look for n in ('try_recv', 'recv_timeout', 'recv_deadline', 'recv')})
        o.update({n: (lambda I, st, c: [(st, UNIT)]) for n in ('std::thread::sleep', 'std::thread::yield_now', 'std::thread::park_timeout', 'std::hint::spin_loop')})
        return o


def p07_keep(ck):
    ck.rule('the expiry checker: waits until now + keep-alive, restarts that period from the current time at every completed request, ends only '
            'when the period is over or it is told to stop, and always ends by shutting the socket down in both directions')
    b = ck.p.body(ck.fn(KEEP))
    n = [b.lname(i + 1) for i in range(b.argc)]
    stream = A(next(n[i] for i in range(b.argc) if 'TcpStream' in b.ty(i + 1).s))
    ka = A(next(n[i] for i in range(b.argc) if b.ty(i + 1).s == 'i64'))
    kp = Checker(ck, stream, ka, 3)
    ps = ck.run(KEEP, segs=True, nojoin=True, lock_havoc=False, keep=lambda x: x == SHUT, overrides=kp.overrides())
    I = ck.last
    ends = {True: 0, 'Break': 0}
    for p in ps:
        st = p.st
        sh = [e for e in p.evs() if e.a[0] == SHUT]
        ck.ob(len(sh) >= 1 and is_clone(I, st, einfo(sh[-1])[0], stream) and both(I, st, einfo(sh[-1])[1]), 'keep:shutdown', ck.sp(KEEP),
              'the checker ends without shutting the socket down in both directions')
        over, ms = kp.judged(st), kp.msgs(st)
        told = bool(ms) and ms[-1][1] == 'Break'
        ck.ob(over is True or told, 'keep:why', ck.sp(KEEP), 'the socket is shut down although the period is not over and nothing said to stop')
        ends['Break' if told else True] += 1
    for k, m in sorted(kp.bad.items()):
        ck.ob(False, k, ck.sp(KEEP), m)
    ck.floor('checker ends when the period is over', ends[True], 4)
    ck.floor('checker ends when told to stop', ends['Break'], 3)
    ck.floor('checker waits', kp.n['waits'], 8)


def p08_listen(ck):
    ck.rule('the accept loop: a failed bind or pool creation is returned; every accepted connection whose addresses are known is handed to the '
            'pool once, with the server\'s routes, keep-alive time and compression flag and the connection\'s own addresses; an error of one '
            'connection or of accepting never ends the loop')
    backs = []
    CREATE, LOGI = 'utils::concurrent::thread_pool::Builder::create', 'server::server::HttpServer::log_init'
    PD = '<utils::concurrent::thread_pool::ThreadPool as std::ops::Drop>::drop'
    ps = ck.run(LISTEN, nojoin=True, opaque={CONN, POOLX, CREATE, LOGI, PD},
                keep=lambda x: x in (CONN, POOLX, CREATE, LOGI, 'accept') or x.startswith('std::net::TcpListener'),
                on_back=lambda f, h, s: backs.append((f, h, s)))
    I = ck.last
    me = deref(A('self'))
    ck.ob(bool(ps), 'listen:paths', ck.sp(LISTEN), 'never returns an error')
    for p in ps:
        st = p.st
        bad = [k.a[0] for k, v in st.facts.items() if isinstance(k, T) and k.op == 'discr' and v == 'Err' and k.a[0].op == 'call'
               and (k.a[0].a[0] == CREATE or 'bind' in k.a[0].a[0])]
        ck.ob(len(bad) >= 1, 'listen:ends', ck.sp(LISTEN), 'the server stops although neither the bind nor the pool failed')
        ck.ob(I.variant_of(st, p.ret) == 'Err', 'listen:error', ck.sp(LISTEN), f'a failed bind is returned as {p.ret!r}')
        ck.ob(not any(e.a[0] == 'accept' for e in p.evs()), 'listen:end-loop', ck.sp(LISTEN), 'the accept loop ends')
    ck.ob(not I.panics, 'listen:panic', ck.sp(LISTEN), 'the server can panic where it makes its pool and accepts: ' + str([x[0] for x in I.panics])[:300])
    kinds = {'run': 0, 'skip': 0, 'acc': 0}
    for f, h, st in backs:
        if not f.endswith('listener'):
            continue
        items = absint.items_of(st.trace)
        cut = max(i for i, x in enumerate(items) if x.op == 'loop' and x.a[0] == f)
        it = items[cut + 1:]
        acc = [x for x in it if x.op == 'ev' and x.a[0] == 'accept']
        ex = [x for x in it if x.op == 'ev' and x.a[0] == POOLX]
        if not acc:
            continue
        r = eret(acc[0])
        ck.ob(any(isinstance(x, T) and x.op == 'call' and 'bind' in x.a[0] and A('addr') in x.a[1] for x in subterms(einfo(acc[0])[0])),
              'listen:socket', ewhere(acc[0]), 'connections are accepted from another socket than the one bound to the given address')
        if I.variant_of(st, r) == 'Err':
            kinds['acc'] += 1
            ck.ob(not ex, 'listen:acc-err', ck.sp(LISTEN), 'a failed accept is handed to the pool')
            continue
        stream = fld(project(r, ('as', 'Ok')), '0')
        addr = {}
        for k, v in st.facts.items():
            if isinstance(k, T) and k.op == 'discr' and k.a[0].op == 'call' and k.a[0].a[0].endswith(('::peer_addr', '::local_addr')):
                addr[k.a[0].a[0].split('::')[-1]] = (v, k.a[0])
        if any(v == 'Err' for v, _ in addr.values()):
            kinds['skip'] += 1
            ck.ob(not ex, 'listen:addr-err', ck.sp(LISTEN), 'a connection without addresses is handed to the pool')
            continue
        kinds['run'] += 1
        if not ck.ob(len(ex) == 1, 'listen:once', ck.sp(LISTEN), f'an accepted connection is handed to the pool {len(ex)} times'):
            continue
        clo = eargs(ex[0])[-1]
        pool = einfo(ex[0])[0]
        ck.ob(any(x.op == 'call' and x.a[0] == CREATE for x in subterms(pool)), 'listen:pool', ewhere(ex[0]), f'the connection is given to {pool!r}')
        for q in call_closure(ck, clo, {CONN}, st=absint.State(st.store, st.facts, absint.NIL)):
            cc = [x for x in q.evs() if x.a[0] == CONN]
            if not ck.ob(len(cc) == 1, 'listen:task', ewhere(ex[0]), 'the task does not handle the connection exactly once'):
                continue
            bc = ck.p.body(ck.fn(CONN))
            for i in range(bc.argc):
                v = q.I.strip(q.st, einfo(cc[0])[i])
                cn = bc.lname(i + 1)
                if 'TcpStream' in bc.ty(i + 1).s:
                    ck.ob(v is stream, 'listen:stream', ewhere(ex[0]), f'the connection handled is {v!r}')
                elif cn in ('peer', 'local'):
                    w = addr.get(cn + '_addr', (None, None))[1]
                    other = addr.get(('local' if cn == 'peer' else 'peer') + '_addr', (None, None))[1]
                    h_, p_ = fld(v, 'host'), fld(v, 'port')
                    ck.ob(w is not None and holds(h_, w) and holds(p_, w) and not holds(h_, other) and not holds(p_, other), f'listen:{cn}', ewhere(ex[0]),
                          f'the {cn} address is {v!r}'[:400])
                else:
                    ck.ob(v is fld(me, cn), f'listen:{cn}', ewhere(ex[0]), f'{cn} is {v!r} instead of the server\'s')
    for k, v in kinds.items():
        ck.floor(f'accept rounds {k}', v, 1)


def p08_settings(ck):
    ck.rule('server settings: each setter sets its own field only (negative keep-alive means 0); the pool gets the configured size; '
            'cloning a server keeps its settings')
    H = 'server::server::HttpServer::'
    fields = [f for f in ('pool_size', 'keepalive', 'compress', 'module', 'root')]
    for fn, field, val in (('set_pool_size', 'pool_size', A('pool_size')), ('set_compress', 'compress', TRUE), ('set_keepalive', 'keepalive', None)):
        for p in ck.run(H + fn, nojoin=True):
            me = p.I.read(p.st, (('H', A('self')), ()))
            for f in fields:
                v = fld(me, f)
                if f != field:
                    ck.ob(v is fld(deref(A('self')), f), f'{fn}:{f}', ck.sp(H + fn), f'{fn} changes {f} to {v!r}')
                elif val is not None:
                    ck.ob(v is val, f'{fn}:{f}', ck.sp(H + fn), f'{fn} sets {v!r}')
                else:
                    lt = p.st.facts.get(T('bin', 'Lt', A('keepalive'), Int(0)))
                    if v is Int(0):
                        ck.ob(lt is True or p.st.facts.get(A('keepalive')) == 0 or
                              p.st.facts.get(T('bin', 'Lt', Int(0), A('keepalive'))) is False, 'set_keepalive:neg', ck.sp(H + fn), 'a positive keep-alive time is dropped')
                    else:
                        ck.ob(v is A('keepalive') and (lt is False or p.st.facts.get(T('bin', 'Lt', Int(0), A('keepalive'))) is True) or
                              v.op == 'call' and v.a[0].endswith('max') and set(v.a[1]) == {Int(0), A('keepalive')}, 'set_keepalive:val', ck.sp(H + fn),
                              f'the keep-alive time becomes {v!r}')
    cl = '<server::server::HttpServer as std::clone::Clone>::clone'
    for p in ck.run(cl):
        for f in fields:
            ck.ob(fld(p.ret, f) is fld(deref(A('self')), f), f'clone:{f}', ck.sp(cl), f'the clone has {f} = {fld(p.ret, f)!r}')
    CREATE, LOGI = 'utils::concurrent::thread_pool::Builder::create', H + 'log_init'
    for set_ in (True, False):
        st = absint.State({}, {}, absint.NIL)
        sz = A('size') if set_ else Int(0)
        st.store[('X', 'srv')] = T('agg', H[:-2], 'HttpServer', tuple(x['n'] for x in ck.p.adts[H[:-2]]['v'][0]['f']),
                                   tuple(sz if x['n'] == 'pool_size' else A(x['n']) for x in ck.p.adts[H[:-2]]['v'][0]['f']))
        if set_:
            for t, v in ((T('bin', 'Lt', Int(0), sz), True), (T('bin', 'Lt', sz, Int(1)), False), (T('bin', 'Eq', sz, Int(0)), False), (T('bin', 'Le', sz, Int(0)), False), (T('bin', 'Le', Int(1), sz), True)):
                st.facts[t] = v
        for p in ck.run(LISTEN, [T('ref', ('X', 'srv'), ()), A('addr')], st, nojoin=True, opaque={CONN, POOLX, CREATE, LOGI}, keep=[CREATE]):
            for e in p.named(CREATE)[:1]:
                v = fld(einfo(e)[0], 'pool_size')
                ck.ob(v is sz if set_ else not (v is sz), 'listen:size', ewhere(e), f'the pool is made with {v!r} threads' + (' although a size is set' if set_ else ' although no size is set'))


PROPS = {'P05': [p05_exec, p05_extend], 'P06': [p06_conn, p06_loop], 'P07': [p07_keep], 'P08': [p08_listen, p08_settings]}
