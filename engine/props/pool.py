"""Thread pool: no task is lost or run twice, workers report back, panicking workers are replaced, the builder's settings are used."""
from ck import *
from props.server import call_closure

M_ = 'utils::concurrent::thread_pool::'
TP, BU = M_ + 'ThreadPool::', M_ + 'Builder::'
QPOP, QPUSH, QEMPTY = ('crossbeam::crossbeam_queue::ArrayQueue::' + x for x in ('pop', 'push', 'is_empty'))
QLEN, QFULL = 'crossbeam::crossbeam_queue::ArrayQueue::len', 'crossbeam::crossbeam_queue::ArrayQueue::is_full'
SEND, RECV = 'crossbeam::crossbeam_channel::Sender::send', 'crossbeam::crossbeam_channel::Receiver::recv'
SPAWN = ('std::thread::Builder::spawn', 'std::thread::spawn')
FNBOX = M_ + 'FnBox::run'


def keep(x):
    return x.startswith(('crossbeam', '@lock', '@unlock', '@vinsert', '@vremove', '@vpush', '@vswap', '@icall', 'std::thread')) or 'FnBox' in x \
        or 'catch_unwind' in x


def tops(st):
    return [x for x in absint.items_of(st.trace) if x.op == 'ev']


def queue_of(I, st, e):
    """'task' or 'idle': the queue the event works on (the receiver's field, else what is put in)"""
    for v in (eargs(e)[0], einfo(e)[0]):
        r = repr(v)
        if 'task_queue' in r:
            return 'task'
        if 'idle_queue' in r or 'worker' in r:
            return 'idle'
    return None


def same(I, st, a, b):
    return a is b or equiv(I, st, a, b)


class Flow:
    """Where tasks and workers come from and go to on one straight piece of an abstract path."""

    def __init__(self, I, st, tasks=()):
        self.I, self.st = I, st
        self.ev = tops(st)
        self.tasks = list(tasks)          # task terms obtained
        self.workers = []                 # idle workers obtained
        self.task_out, self.worker_out = [], []
        self.err_push = False
        for e in self.ev:
            n = e.a[0]
            if n == QPOP:
                v = I.variant_of(st, eret(e))
                if v == 'Some':
                    (self.tasks if queue_of(I, st, e) == 'task' else self.workers).append(some_of(eret(e)))
            elif n == QPUSH:
                ok = I.variant_of(st, eret(e))
                x = einfo(e)[1]
                if queue_of(I, st, e) == 'task':
                    if ok == 'Err':
                        self.err_push = True
                    self.task_out.append((x, 'queue', e, ok))
                else:
                    self.worker_out.append((x, 'idle', e, ok))
            elif n == SEND:
                m = einfo(e)[1]
                if m.op == 'agg' and m.a[1] == 'Run':
                    self.task_out.append((m.a[3][0], 'send', e, 'Ok'))
                    self.worker_out.append((einfo(e)[0], 'run', e, 'Ok'))
            elif n in (FNBOX, '@icall'):
                self.task_out.append((eargs(e)[0], 'run', e, 'Ok'))
            elif n == RECV:
                v = eret(e)
                if I.variant_of(st, v) == 'Ok':
                    m = fld(project(v, ('as', 'Ok')), '0')
                    if I.variant_of(st, m) == 'Run':
                        self.tasks.append(fld(project(m, ('as', 'Run')), '0'))

    def settled(self):
        """True if the last thing known is that there is no queued task or no idle worker (so nobody waits while a task waits)."""
        ok = True
        for e in self.ev:
            n, I, st = e.a[0], self.I, self.st
            if n == QPUSH and I.variant_of(st, eret(e)) != 'Err':
                ok = False
            elif n == QPOP and I.variant_of(st, eret(e)) == 'None':
                ok = True
            elif n == QEMPTY and I.truth(st, eret(e)) is True:
                ok = True
        return ok


def conserve(ck, key, where, fl, err=False):
    I, st = fl.I, fl.st
    for t in fl.tasks:
        out = [o for o in fl.task_out if same(I, st, o[0], t)]
        good = [o for o in out if o[3] != 'Err']
        if err:
            ck.ob(not good, f'{key}:refused', where, 'a task that is refused runs all the same')
        else:
            ck.ob(len(good) == 1, f'{key}:task', where, f'a task is handed on {len(good)} times on this path ({[o[1] for o in good]})')
    for o in fl.task_out:
        ck.ob(any(same(I, st, o[0], t) for t in fl.tasks), f'{key}:task-from', ewhere(o[2]), f'what is handed on as a task is {o[0]!r}'[:300])
    for w in fl.workers:
        out = [o for o in fl.worker_out if o[1] == 'idle' and same(I, st, o[0], w) or o[1] == 'run' and holds(o[0], w)]
        ck.ob(len(out) == 1, f'{key}:worker', where, f'an idle worker is used or put back {len(out)} times on this path ({[o[1] for o in out]})')


def p10_execute(ck):
    ck.rule('submitting: on every path the task is sent to one idle worker or queued, or (queue full) an error is returned and it does not run; every '
            'idle worker and task taken from a queue is used exactly once; after queueing, the path ends only knowing that no task or no idle worker is left')
    backs = []
    n = TP + 'execute'
    ps = ck.run(n, nojoin=True, keep=keep, on_back=lambda f, h, s: backs.append(s))
    I = ck.last
    b = ck.p.body(ck.fn(n))
    task = A(b.lname(2))
    cnt = {}
    for p in ps:
        fl = Flow(I, p.st, [task])
        v = I.variant_of(p.st, p.ret)
        ck.ob(v in ('Ok', 'Err'), 'execute:ret', ck.sp(n), f'the result is {p.ret!r}')
        conserve(ck, 'execute', ck.sp(n), fl, err=v == 'Err')
        ck.ob(v != 'Err' or fl.err_push, 'execute:err', ck.sp(n), 'a task is refused although the queue has room')
        kind = 'full' if v == 'Err' else ('direct' if any(o[1] == 'send' and o[0] is task for o in fl.task_out) else 'queued')
        cnt[kind] = cnt.get(kind, 0) + 1
        if kind == 'direct':
            ck.ob(any(same(I, p.st, o[0], task) and any(holds(w[0], x) for w in fl.worker_out if w[2] is o[2] for x in fl.workers) for o in fl.task_out),
                  'execute:to', ck.sp(n), 'the task is sent to something else than an idle worker')
        ck.ob(fl.settled() or kind == 'full', 'execute:wake', ck.sp(n), 'a queued task can stay queued while a worker is idle')
    for st in backs:
        conserve(ck, 'dispatch', ck.sp(n), Flow(I, st, [task]))
    for k in ('direct', 'queued', 'full'):
        ck.floor(f'execute {k}', cnt.get(k, 0), 1)


def notify_rounds(ck):
    """(interp, [(state, message variant or None)]) one generic round of the manager loop"""
    n = TP + 'notify_check'
    backs = []
    ps = ck.run(n, nojoin=True, keep=keep, on_back=lambda f, h, s: backs.append((f, s)))
    I = ck.last
    r = []
    for f, st in backs:
        m = None
        rc = [e for e in tops(st) if e.a[0] == RECV]
        if not rc:
            continue
        v = I.variant_of(st, eret(rc[0]))
        if v == 'Ok':
            m = I.variant_of(st, fld(project(eret(rc[0]), ('as', 'Ok')), '0'))
        msg = fld(project(eret(rc[0]), ('as', 'Ok')), '0')
        r.append((st, v if v != 'Ok' else m, msg, f.endswith('notify_check')))
    return I, ps, r


def p10_notify(ck):
    ck.rule('the manager, per notification: an idle worker gets the next queued task or becomes available (and queued tasks are then looked for again); every '
            'task taken from the queue is sent to exactly one worker; it ends only when told to, never by an error')
    n = TP + 'notify_check'
    I, ps, rounds = notify_rounds(ck)
    for p in ps:
        rc = [e for e in tops(p.st) if e.a[0] == RECV]
        ok = rc and I.variant_of(p.st, fld(project(eret(rc[-1]), ('as', 'Ok')), '0')) == 'Close'
        ck.ob(ok, 'notify:end', ck.sp(n), 'the manager ends although nothing told it to')
    cnt = {}
    for st, m, msg, outer in rounds:
        fl = Flow(I, st)
        conserve(ck, f'notify:{m}', ck.sp(n), fl)
        if m == 'Close':
            ck.ob(False, 'notify:close', ck.sp(n), 'the manager goes on after being told to end')
        if m != 'Idle' or not outer:
            continue
        i = fld(project(msg, ('as', 'Idle')), '0')
        fate = [o for o in fl.worker_out if 'threads' in repr(o[0]) and holds(o[0], i)]
        ck.ob(len(fate) == 1, 'notify:idle', ck.sp(n), f'a worker that became idle is given a task or made available {len(fate)} times')
        for o in fate:
            cnt[o[1]] = cnt.get(o[1], 0) + 1
        ck.ob(fl.settled() or all(o[1] == 'run' for o in fate), 'notify:wake', ck.sp(n), 'a task queued while the worker became idle stays queued')
        pops = [e for e in fl.ev if e.a[0] == QPOP and queue_of(I, st, e) == 'task']
        if fate and fate[0][1] == 'idle':
            ck.ob(bool(pops) and I.variant_of(st, eret(pops[0])) == 'None' or fl.settled(), 'notify:task-first', ck.sp(n), 'a worker becomes available without looking for a queued task')
    ck.floor('idle rounds: task', cnt.get('run', 0), 1)
    ck.floor('idle rounds: available', cnt.get('idle', 0), 1)


def created(ck):
    """the paths of Builder::create, with the closures it starts threads with: [(state, event, closure)]"""
    n = BU + 'create'
    backs = []
    ps = ck.run(n, nojoin=True, keep=keep, opaque={'<' + M_ + 'ThreadPool as std::ops::Drop>::drop'}, on_back=lambda f, h, s: backs.append((f, h, s)))
    I = ck.last
    clos = []
    for st in [p.st for p in ps] + [s for _, _, s in backs]:
        for e in tops(st):
            if e.a[0] in SPAWN and I.variant_of(st, eret(e)) != 'Err':
                clos.append((st, e, eargs(e)[-1]))
    return I, ps, backs, clos


def body_of_thread(ck, st, clo, hook=None):
    backs, pan = [], []

    def on_call(s, c, name, rpath):
        if c.path == FNBOX or name == '@icall':
            s2 = s.copy()
            s2.facts[PANICKING] = True
            pan.append((s2, c.fn, c.site, c.chain, c.sp))
    I = absint.Interp(ck.p, models.M, interest=keep, on_call=on_call, max_steps=200000, logs='off',
                      overrides={'std::thread::panicking': lambda I, s, c: [(s, Bool(PANICKING in s.facts))]})
    I.nojoin = I.unwinding = True
    I.on_back = lambda f, h, s: backs.append((f, h, s))
    c = absint.Call()
    c.fn = c.sp = ''
    c.path, c.args, c.tys, c.site, c.chain, c.f = '@x', [], [], (0, 0), (('entry', 'x'),), {}
    outs = I.call_value(absint.State(st.store, st.facts, absint.NIL), clo, [], c)
    ck.account(I, outs)
    return I, outs, backs, pan


PANICKING = T('panicking')


def p11_worker(ck):
    ck.rule('a worker thread, per message: runs the task it received exactly once and then reports itself idle under its own index, nothing else; it ends only '
            'when told to, and then without asking for a replacement')
    I0, ps, backs0, clos = created(ck)
    nrun = nw = 0
    seen = set()
    for st0, e0, clo in clos:
        if clo in seen:
            continue
        seen.add(clo)
        I, outs, backs, pan = body_of_thread(ck, st0, clo)
        if not pan:
            continue
        nw += 1
        wh = ewhere(e0)
        ix = worker_index(I0, st0)
        for f, h, st in backs:
            fl = Flow(I, st)
            runs = [o for o in fl.task_out if o[1] == 'run']
            rc = [e for e in fl.ev if e.a[0] == RECV]
            sends = [e for e in fl.ev if e.a[0] == SEND]
            got = len(fl.tasks)
            ck.ob(len(rc) == 1, 'worker:recv', wh, f'{len(rc)} messages are taken per round')
            conserve(ck, 'worker', wh, fl)
            if got:
                nrun += 1
                if ck.ob(len(sends) == 1 and runs and fl.ev.index(sends[0]) > fl.ev.index(runs[0][2]), 'worker:report', wh,
                         f'after its task a worker reports {len(sends)} times'):
                    m = einfo(sends[0])[1]
                    ck.ob(m.op == 'agg' and m.a[1] == 'Idle' and any(m.a[3][0] is x for x in ix), 'worker:idle', ewhere(sends[0]), f'after its task a worker reports {m!r}')
            else:
                ck.ob(not sends, 'worker:spurious', wh, 'a worker reports although it did not run a task')
                ck.ob(not (rc and closed(I, st, rc[0])), 'worker:close', wh, 'a worker goes on after it was told to end')
        for st, v in outs:
            rc = [e for e in tops(st) if e.a[0] == RECV]
            ck.ob(bool(rc) and closed(I, st, rc[-1]), 'worker:end', wh, 'a worker ends although nothing told it to')
            ck.ob(not [e for e in tops(st) if e.a[0] == SEND], 'worker:end-quiet', wh, 'a worker that was told to end asks to be replaced')
    ck.floor('worker threads', nw, 1)
    ck.floor('task rounds', nrun, 1)


def closed(I, st, e):
    return I.variant_of(st, fld(project(eret(e), ('as', 'Ok')), '0')) == 'Close'


def worker_index(I, st):
    """terms that denote the index of the worker being created: what the list of workers grows by in this round"""
    r = set()
    for k in st.facts:
        if isinstance(k, T) and k.op == 'bin' and k.a[0] in ('Lt', 'Le') and (k.a[1].op == 'hv' or is_c(k.a[1], 'int')):
            r.add(k.a[1])
    ints = [x for x in r if is_c(x, 'int')]
    for x in ints:
        if x is not max(ints, key=lambda y: y.a[1]):
            r.discard(x)
    return r


def p12_panic(ck):
    ck.rule('a task that panics: unwinding its worker thread reports exactly one replacement request for its own index (and counts one less active worker); '
            'the manager then replaces the worker at that index by a new one, counts it active and announces it as idle')
    I0, ps, backs0, clos = created(ck)
    n = 0
    seen = set()
    for st0, e0, clo in clos:
        if clo in seen:
            continue
        seen.add(clo)
        I, outs, backs, pan = body_of_thread(ck, st0, clo)
        ix = worker_index(I0, st0)
        for s2, fn, site, chain, sp in pan:
            c = absint.Call()
            c.fn, c.site, c.chain, c.sp = fn, site, chain, sp
            base = len(tops(s2))
            un = I.unwind(s2, c)
            ck.ob(bool(un), 'panic:unwind', sp, 'the worker does not survive the unwinding')
            for s3 in un:
                n += 1
                new = tops(s3)[base:]
                snd = [e for e in new if e.a[0] == SEND]
                ok = len(snd) == 1 and einfo(snd[0])[1].op == 'agg' and einfo(snd[0])[1].a[1] == 'Fill' and any(einfo(snd[0])[1].a[3][0] is x for x in ix)
                ck.ob(ok, 'panic:fill', sp, f'a panicking worker reports {[einfo(e)[1] for e in snd]!r}')
                sub = [e for e in new if e.a[0].endswith('fetch_sub')]
                ck.ob(len(sub) == 1 and 'active_count' in repr(eargs(sub[0])[0]) and eargs(sub[0])[1] is Int(1), 'panic:active', sp, 'a panicking worker is still counted active')
                add = [e for e in new if e.a[0].endswith('fetch_add')]
                ck.ob(len(add) == 1 and 'panic_count' in repr(eargs(add[0])[0]), 'panic:count', sp, 'a panic is not counted')
    ck.floor('unwinding paths', n, 1)
    I, ps, rounds = notify_rounds(ck)
    w = ck.sp(TP + 'notify_check')
    k = 0
    for st, m, msg, outer in rounds:
        if m != 'Fill' or not outer:
            continue
        k += 1
        i = fld(project(msg, ('as', 'Fill')), '0')
        ev = tops(st)
        ins = [e for e in ev if e.a[0] in ('@vinsert', '@vpush', '@vswap') and 'threads' in repr(eargs(e)[0])]
        rem = [e for e in ev if e.a[0] == '@vremove']
        spn = [e for e in ev if e.a[0] in SPAWN and I.variant_of(st, eret(e)) != 'Err']
        ck.ob(len(spn) == 1, 'fill:thread', w, f'{len(spn)} threads are started for a replacement')
        v = threads_value(I, st)
        ck.ob(v is not None and replaced_at(v, i), 'fill:place', w, f'the list of workers becomes {v!r}'[:400])
        act = [e for e in ev if e.a[0].endswith('fetch_add') and 'active_count' in repr(eargs(e)[0])]
        ck.ob(len(act) == 1 and eargs(act[0])[1] is Int(1), 'fill:active', w, 'the replacement is not counted active once')
        snd = [e for e in ev if e.a[0] == SEND]
        ok = len(snd) == 1 and einfo(snd[0])[1].op == 'agg' and einfo(snd[0])[1].a[1] == 'Idle' and einfo(snd[0])[1].a[3][0] is i
        ck.ob(ok, 'fill:idle', w, f'the replacement is announced as {[einfo(e)[1] for e in snd]!r}')
        del ins, rem
        for e in spn:
            clo = eargs(e)[-1]
            J, outs, bs, pan = body_of_thread(ck, st, clo)
            for f, h, s in bs:
                for x in tops(s):
                    if x.a[0] == SEND:
                        mm = einfo(x)[1]
                        ck.ob(mm.op == 'agg' and mm.a[1] == 'Idle' and mm.a[3][0] is i, 'fill:index', ewhere(e), f'the replacement reports {mm!r}')
                        a, b = chan_of(einfo(x)[0]), deref(A('self'))
                        ck.ob(holds(einfo(x)[0], b), 'fill:notify', ewhere(e), 'the replacement reports elsewhere than to its pool')
                        del a
                    if x.a[0] == RECV:
                        ck.ob(not v or any(y.op == 'call' and 'unbounded' in y.a[0] and holds(v, y) for y in subterms(einfo(x)[0])), 'fill:channel', ewhere(e),
                              'the replacement listens on another channel than the list of workers sends on')
    ck.floor('replacement rounds', k, 1)


def chan_of(t):
    return t


def threads_value(I, st):
    """current content of the pool's list of workers on this path"""
    for b, v in st.store.items():
        if isinstance(b, tuple) and '@in' in repr(b) and 'threads' in repr(b):
            return v
    for b, v in st.store.items():
        r = repr(v)
        if v.op in ('insert', 'upd') and 'threads' in r:
            return v
    return None


def replaced_at(v, i):
    """is v some list with the element at i, and nothing else, replaced?"""
    v = project(v, '@in') if v.op == 'upd' and '@in' in v.a else v
    if v.op == 'insertv' and v.a[1] is i:
        return v.a[0].op == 'removev' and v.a[0].a[1] is i and pure(v.a[0].a[0])
    return v.op == 'upd' and v.a[1] in (('idx', i), T('idx', i)) and pure(v.a[0])


def pure(v):
    return not any(x.op in ('insertv', 'removev', 'swapremovev', 'push', 'upd', 'eff') for x in subterms(v))


FIELDS = ('pool_size', 'stack_size', 'name_prefix', 'task_count')


def p13_builder(ck):
    ck.rule('each builder setting changes exactly its own value (a size of 0 is refused), and every constructor passes the sizes and names it is given to '
            'the one creation function and returns its result')
    for fn in FIELDS:
        n = BU + fn
        arg = A(ck.p.body(ck.fn(n)).lname(2))
        ps = ck.run(n, nojoin=True)
        ck.ob(bool(ps), f'{fn}:returns', ck.sp(n), 'never returns')
        for p in ps:
            me = p.I.read(p.st, (('H', A('self')), ()))
            for f in FIELDS:
                v, old = fld(me, f), fld(deref(A('self')), f)
                if f == fn:
                    ck.ob(v is arg or v.op == 'call' and v.a[0].endswith('::into') and v.a[1] == (arg,), f'{fn}:sets', ck.sp(n), f'{fn} sets {v!r}')
                else:
                    ck.ob(v is old, f'{fn}:{f}', ck.sp(n), f'{fn} changes {f} to {v!r}')
        if fn == 'pool_size':
            z = ck.run(n, lambda I, st: [A('self'), Int(0)], nojoin=True)
            ck.ob(not z, 'pool_size:zero', ck.sp(n), 'a pool size of 0 is accepted')
    CREATE = BU + 'create'
    for fn, given in (('default', ()), ('new', ('pool_size',)), ('new_with_name', ('name_prefix', 'pool_size')),
                      ('new_custom', ('name_prefix', 'pool_size', 'stack_size', 'task_count'))):
        n = TP + fn
        b = ck.p.body(ck.fn(n))
        dflt = ck.run(BU + 'new')
        for p in ck.run(n, nojoin=True, opaque={CREATE}, keep=[CREATE]):
            ev = p.evs()
            if not ck.ob(len(ev) == 1 and p.ret is eret(ev[0]), f'{fn}:create', ck.sp(n), f'{len(ev)} pools are created'):
                continue
            bu = einfo(ev[0])[0]
            for f in FIELDS:
                v = fld(bu, f)
                if f in given:
                    want = A(b.lname(given.index(f) + 1))
                    ck.ob(v is want or v.op == 'call' and v.a[0].endswith('::into') and v.a[1] == (want,), f'{fn}:{f}', ewhere(ev[0]), f'{f} of the pool is {v!r}')
                else:
                    ck.ob(any(repr(v) == repr(fld(d.ret, f)) or v.op == 'call' and fld(d.ret, f).op == 'call' and v.a[0] == fld(d.ret, f).a[0] for d in dflt), f'{fn}:{f}', ewhere(ev[0]), f'{f} of the pool is {v!r}')


def p13_create(ck):
    ck.rule('creation: one worker per index below the configured size, named prefix + index, with the configured stack size, each put both in the list of workers '
            'and in the queue of idle ones with the sending half of the channel its thread listens on; task queue and idle queue have the configured capacity; one '
            'manager works on the very queues, list and channel of the pool that is returned; a thread that cannot be started is returned as an error')
    I, ps, backs, clos = created(ck)
    n = BU + 'create'
    w = ck.sp(n)
    me = deref(A('self'))
    size, stack, pre, cnt = (fld(me, f) for f in FIELDS)
    rounds = 0
    for f, h, st in backs:
        ev = tops(st)
        spn = [e for e in ev if e.a[0] in SPAWN]
        if not spn:
            continue
        rounds += 1
        if not ck.ob(len(spn) == 1, 'create:one', w, f'{len(spn)} threads per worker'):
            continue
        ix = worker_index(I, st)
        for x in ix:
            if x.op == 'hv':
                src = I.hsrc.get(x, ())
                ints = [s.a[1] for s in src if is_c(s, 'int')]
                rest = [s for s in src if not is_c(s, 'int')]
                ck.ob(bool(ints) and min(ints) == 0 and sorted(ints) == list(range(len(ints))) and all(s is T('bin', 'Add', x, Int(1)) for s in rest),
                      'create:from-0', w, f'the index of the workers runs over {list(src)!r}'[:300])
                ck.counts['generic index'] = 1
        t = eargs(spn[0])[0]
        nm = [x for x in subterms(t) if x.op == 'call' and x.a[0] == 'std::thread::Builder::name']
        ok = len(nm) == 1 and nm[0].a[1][1].op == 'cat' and nm[0].a[1][1].a[0] is pre and len(nm[0].a[1][1].a) == 2 \
            and any(shown(nm[0].a[1][1].a[1], x) for x in ix)
        ck.ob(ok, 'create:name', ewhere(spn[0]), f'a worker is named {nm!r}'[:300])
        ss = [x for x in subterms(t) if x.op == 'call' and x.a[0] == 'std::thread::Builder::stack_size']
        pos = st.facts.get(T('bin', 'Lt', Int(0), stack))
        ck.ob(len(ss) == 1 and ss[0].a[1][1] is stack if pos is not False else not ss, 'create:stack', ewhere(spn[0]), f'a worker gets the stack {ss!r}'[:300])
        ck.ob(any(isinstance(k, T) and k.op == 'bin' and k.a[0] == 'Lt' and k.a[2] is size and v is True for k, v in st.facts.items()), 'create:bound', w,
              'more workers are created than configured')
        vp = [e for e in ev if e.a[0] == '@vpush']
        qp = [e for e in ev if e.a[0] == QPUSH]
        if ck.ob(len(vp) == 1 and len(qp) == 1, 'create:stored', w, f'a worker is listed {len(vp)} times and queued {len(qp)} times'):
            a, b = einfo(vp[0])[1], einfo(qp[0])[1]
            ck.ob(equiv(I, st, a, b), 'create:same', w, 'another worker is listed than queued as idle')
            J, outs, bs, pan = body_of_thread(ck, st, eargs(spn[0])[-1])
            for _, _, s in bs:
                for e in tops(s):
                    if e.a[0] == RECV:
                        rx = einfo(e)[0]
                        pair = rx.op == 'f' and rx.a[1] == '1' and 'unbounded' in repr(rx)
                        ck.ob(pair and holds(a, T('f', rx.a[0], '0')), 'create:channel', ewhere(spn[0]), f'the thread listens on {rx!r}, the worker sends on {a!r}'[:300])
    ck.floor('worker creation rounds', rounds, 1)
    ck.floor('generic index', 0, 0)
    ck.ob(bool(ck.counts.get('generic index')), 'create:index', w, 'the index of the workers is not followed by a loop variable')
    good = 0
    for p in ps:
        st = p.st
        ev = tops(st)
        v = I.variant_of(st, p.ret)
        bad = [e for e in ev if e.a[0] in SPAWN and I.variant_of(st, eret(e)) == 'Err' or e.a[0] == QPUSH and I.variant_of(st, eret(e)) == 'Err']
        ck.ob((v == 'Err') == bool(bad), 'create:err', w, 'a failure is swallowed, or an error returned without one')
        if v != 'Ok':
            continue
        good += 1
        pool = fld(project(p.ret, ('as', 'Ok')), '0')
        ck.ob(any(isinstance(k, T) and k.op == 'bin' and k.a[0] == 'Lt' and k.a[2] is size and x is False for k, x in st.facts.items()), 'create:all', w,
              'fewer workers are created than configured')
        caps = {}
        for e in ev:
            if e.a[0].endswith('ArrayQueue::new'):
                caps[eret(e)] = eargs(e)[0]
        tq, iq = deep(I, st, fld(pool, 'task_queue')), deep(I, st, fld(pool, 'worker_idle_queue'))
        ck.ob(any(holds(tq, k) and c is cnt for k, c in caps.items()), 'create:tasks', w, f'the task queue is {tq!r} {caps!r}'[:300])
        ck.ob(any(holds(iq, k) and c is size for k, c in caps.items()), 'create:idles', w, f'the idle queue is {iq!r}'[:300])
        ck.ob(deep(I, st, fld(deep(I, st, fld(pool, 'pool_state')), 'size')) is size, 'create:size', w, 'the pool reports another size than configured')
        spn = [e for e in ev if e.a[0] in SPAWN]
        if ck.ob(len(spn) == 1, 'create:manager', w, f'{len(spn)} managers are started'):
            J, outs, bs, pan = body_of_thread(ck, st, eargs(spn[0])[-1])
            rec = [e for _, _, s in bs for e in tops(s) if e.a[0] == RECV]
            ck.ob(bool(rec) and all(einfo(e)[0] is fld(pool, 'rx_notify') for e in rec), 'create:listens', ewhere(spn[0]), 'the manager does not listen to its own pool')
            for _, _, s in bs:
                for e in tops(s):
                    if e.a[0] in (QPOP, QPUSH, QEMPTY):
                        q = J.strip(s, eargs(e)[0])
                        ck.ob(any(q is J.strip(s, fld(pool, f)) for f in ('task_queue', 'worker_idle_queue')), 'create:queues', ewhere(e),
                              f'the manager works on {q!r}'[:300])
        rx, tx = fld(pool, 'rx_notify'), fld(pool, 'tx_notify')
        ck.ob(rx.op == 'f' and tx.op == 'f' and rx.a[0] is tx.a[0] and (tx.a[1], rx.a[1]) == ('0', '1'), 'create:notify', w, 'the notification channel of the pool is not one channel')
    ck.floor('created pools', good, 1)


def shown(t, x):
    return t.op == 'tostr' and t.a[0] is x or is_c(x, 'int') and is_c(t) and str(t.a[1]) == str(x.a[1])


def p13_clone(ck):
    ck.rule('a copy of a pool shares its queues, workers, channel and state; dropping a handle ends the pool only if no other handle is left; size() is the configured size')
    cl = '<' + M_ + 'ThreadPool as std::clone::Clone>::clone'
    for p in ck.run(cl, keep=keep):
        for f in ('pool_state', 'threads', 'tx_notify', 'rx_notify', 'worker_idle_queue', 'task_queue'):
            v = p.I.strip(p.st, fld(p.ret, f))
            ck.ob(v is p.I.strip(p.st, fld(deref(A('self')), f)), f'clone:{f}', ck.sp(cl), f'the copy has {f} = {v!r}')
        up = [e for e in p.evs() if e.a[0].endswith('fetch_add')]
        ck.ob(len(up) == 1 and "'count'" in repr(up[0]) or '.count' in repr(eargs(up[0])[0]), 'clone:count', ck.sp(cl), 'a copy is not counted')
    dr = '<' + M_ + 'ThreadPool as std::ops::Drop>::drop'
    for p in ck.run(dr, nojoin=True, keep=keep):
        ev = tops(p.st)
        snd = [e for e in p.evs() if e.a[0] == SEND]
        sub = [e for e in ev if e.a[0].endswith('fetch_sub')]
        if snd:
            ok = len(sub) == 1 and eargs(sub[0])[1] is Int(1) and any(p.st.facts.get(T('bin', 'Eq', eret(sub[0]), Int(k))) is True or p.st.facts.get(eret(sub[0])) == k for k in (0, 1))
            ck.ob(ok, 'drop:last', ck.sp(dr), 'dropping one handle ends the pool although others may exist')
    for p in ck.run(TP + 'size'):
        ck.ob(fld(deref(fld(deref(A('self')), 'pool_state')), 'size') is p.ret, 'size', ck.sp(TP + 'size'), f'size() is {p.ret!r}')


def p13_spawn(ck):
    ck.rule('the thread helpers start exactly one thread with the given function, name and (if not 0) stack size, and return its handle or the error')
    T_ = 'utils::concurrent::thread::Thread::'
    for fn, named, stacked in (('spawn', False, False), ('spawn_on_name', True, False), ('spawn_on_custom', True, True)):
        n = T_ + fn
        b = ck.p.body(ck.fn(n))
        names = [b.lname(i + 1) for i in range(b.argc)]
        ps = ck.run(n, nojoin=True, keep=lambda x: x.startswith('std::thread'))
        oks = 0
        for p in ps:
            I, st = p.I, p.st
            spn = [e for e in p.evs() if e.a[0] in SPAWN]
            if not ck.ob(len(spn) == 1 and I.strip(st, eargs(spn[0])[-1]) is A(names[-1]), f'{fn}:one', ck.sp(n), f'{len(spn)} threads are started'):
                continue
            v = I.variant_of(st, p.ret)
            ck.ob(v == I.variant_of(st, eret(spn[0])) and v is not None, f'{fn}:ret', ck.sp(n), 'the outcome of starting the thread is not what is returned')
            if v == 'Ok':
                oks += 1
                ck.ob(fld(project(p.ret, ('as', 'Ok')), '0') is fld(project(eret(spn[0]), ('as', 'Ok')), '0'), f'{fn}:handle', ck.sp(n), 'another handle is returned')
            t = eargs(spn[0])[0] if len(eargs(spn[0])) > 1 else UNIT
            nm = [x for x in subterms(t) if x.op == 'call' and x.a[0].endswith('Builder::name')]
            ss = [x for x in subterms(t) if x.op == 'call' and x.a[0].endswith('Builder::stack_size')]
            ck.ob(len(nm) == named and all(x.a[1][1] is A(names[0]) for x in nm), f'{fn}:name', ck.sp(n), f'the thread is named {nm!r}'[:200])
            z = stacked and st.facts.get(T('bin', 'Lt', Int(0), A(names[1])))
            ck.ob(bool(ss) == (z is True) and all(x.a[1][1] is A(names[1]) for x in ss) or stacked and z is None and len(ss) == 1, f'{fn}:stack', ck.sp(n), f'the thread gets the stack {ss!r}'[:200])
        ck.floor(f'{fn} started', oks, 1)


PROPS = {'P10': [p10_execute, p10_notify], 'P11': [p11_worker], 'P12': [p12_panic], 'P13': [p13_builder, p13_create, p13_clone, p13_spawn]}
