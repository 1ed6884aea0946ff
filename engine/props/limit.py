"""The rate limit: when it lets a request through, whatever the clock reads (P14)."""
from ck import *
import wire

LIM = 'server::limit::Limit'
CH = 'crossbeam::crossbeam_channel::'
CLK, REC, SENT, CASE, CAP, TICK = (('X', x) for x in ('clock', 'records', 'sent', 'case', 'cap', 'tick'))
SLEEPS = ('std::thread::sleep', 'std::thread::park_timeout', 'std::thread::yield_now')


class Clock:
    """Every reading of the clock is its own unknown, later than those before it. While the limiter runs, each reading is split into the
    cases that decide whether a request may pass: both conditions hold for it, the section fails, the interval fails."""

    def __init__(self, ck, count, rounds):
        self.ck, self.count, self.rounds = ck, count, rounds
        self.running = False
        self.n = dict(sends=0, waits=0)
        self.where = ck.sp(f'{LIM}::run')
        self.section, self.interval = A('section'), A('interval')

    def bad(self, key, msg):
        self.ck.ob(False, key, self.where, msg + f' (limit of {self.count})')

    def now(self, I, st, c):
        st = st.copy()
        k = st.store.get(CLK, Int(0)).a[1]
        st.store[CLK] = Int(k + 1)
        st.store[TICK] = T('iter', 'val', T('seq', Str('t')), Int(16 * k + st.store.get(SENT, Int(0)).a[1]))     # rounds of the limiter are told apart
        t = T('clk', k)
        m = T('ms', k)
        if not self.running:
            st.store[REC] = T('seq', *st.store.get(REC, T('seq')).a, m)
            return [(st, t)]
        case = st.store.get(CASE)
        if case.op == 'granted':
            held = st.held[-1] if st.held else None
            self.ck.ob(held is not None and held[2] is case.a[0], 'exclusive:count', self.where, f'the list of times is released between a request passing and being counted, or not held at all (limit of {self.count})')
        if case.op == 'granted':       # the time at which the request that has just been let through counts
            st.store[REC] = T('seq', *st.store[REC].a, m)
            st.store[CASE] = T('fresh')
            return [(st, t)]
        if k > self.rounds:
            return []
        if case.op == 'both':
            if case.a[0] >= 2:
                self.bad('waits', 'a request goes on waiting although both conditions for its passing hold')
                return []
            return [(self.split(I, st, m, True, True, T('both', case.a[0] + 1)), t)]
        cases = ((True, True, T('both', 0)), (False, None, T('fails', 'section')), (None, False, T('fails', 'interval')))
        r = []
        for sec, itv, cs in cases if case.op != 'fails' else cases[:1]:
            r.append((self.split(I, st.copy(), m, sec, itv, cs), t))
        return r

    def split(self, I, st, m, sec, itv, case):
        rec = st.store[REC].a
        st.store[CASE] = case
        for val, old, lim in ((sec, rec[-self.count], self.section), (itv, rec[-1], self.interval)):
            if val is None:
                continue
            # more than (or, to be refused, less than) `lim` has passed since `old`, in any arrangement of the terms
            for a, b in ((T('bin', 'Sub', m, old), lim), (m, I.binop(st, 'Add', old, lim)), (I.binop(st, 'Sub', m, lim), old)):
                I.assume(st, I.binop(st, 'Lt', b, a), val)
                I.assume(st, I.binop(st, 'Lt', a, b), not val)
        return st

    def ms(self, I, st, c):
        v = I.strip(st, c.args[0])
        return [(st, T('ms', v.a[0]))] if v.op == 'clk' else NotImplemented

    def send(self, I, st, c):
        st = st.copy()
        case = st.store.get(CASE)
        self.n['sends'] += 1
        self.ck.ob(case is not None and case.op == 'both', 'passes', self.where, f'a request passes without its conditions being met: {self.why(case)} (limit of {self.count})')
        if case is None or case.op != 'both':
            return []
        self.ck.ob(bool(st.held), 'exclusive', self.where, f'a request passes while another limiter thread may use the same times (limit of {self.count})')
        st.store[CASE] = T('granted', st.held[-1][2] if st.held else UNIT)
        n = st.store.get(SENT, Int(0)).a[1] + 1
        st.store[SENT] = Int(n)
        if n > self.count + 1:
            return []
        return [(st, wire.OKU)]

    def why(self, case):
        if case is None:
            return 'the clock is not read'
        return {'granted': 'a second one without another look at the clock', 'fresh': 'the time of the last one is not taken when it passed, or the clock is not read again',
                'fails': f'the {case.a[0] if case.op == "fails" else ""} condition does not hold'}.get(case.op, repr(case))

    def bounded(self, I, st, c):
        st = st.copy()
        st.store[CAP] = T('seq', *st.store.get(CAP, T('seq')).a, c.args[0] if c.args else T('none'))
        return [(st, T('chan', len(st.store[CAP].a)))]

    def overrides(self):
        o = {'utils::time::Time::now': self.now, 'chrono::Local::now': self.now, 'chrono::Utc::now': self.now, 'utils::time::Time::num_milliseconds': self.ms,
             'chrono::DateTime::timestamp_millis': self.ms, CH + 'Sender::send': self.send, CH + 'Sender::try_send': self.send, CH + 'bounded': self.bounded, CH + 'unbounded': self.bounded}
        o.update({s: (lambda I, st, c: [(st, UNIT)]) for s in SLEEPS})
        return o


def p14(ck):
    ck.rule('the limiter, for limits of 1 to 4 requests and any section, interval and clock readings: a request passes exactly when more than the section lies behind the one that passed `count` requests before '
            'and more than the interval behind the last one, and counts from a reading of the clock after it has passed; no permit is stored (the channel has no capacity), and each request takes one')
    run, new, recv = f'{LIM}::run', f'{LIM}::new', f'{LIM}::recv'
    total = waits = 0
    for count in (1, 2, 3, 4):
        cl = Clock(ck, count, 3 * count + 14)
        ps = ck.run(new, [A('section'), Int(count), A('interval')], segs=True, nojoin=True, lock_havoc=False, overrides=cl.overrides())
        ck.ob(bool(ps), 'new', ck.sp(new), f'a limit of {count} cannot be made')
        for p in ps:
            caps = p.st.store.get(CAP, T('seq')).a
            ck.ob(len(caps) == 1 and is_c(caps[0], 'int') and caps[0].a[1] == 0, 'stored', ck.sp(new),
                  f'permits that no request waits for are stored: the channel has the capacity {caps!r}, so that after an idle time more requests pass within a section than allowed')
            rec = p.st.store.get(REC, T('seq')).a
            if not ck.ob(len(rec) >= 1, 'new:clock', ck.sp(new), 'the clock is not read'):
                continue
            rec = (rec[:1] * max(0, count - len(rec)) + rec)[-count:]
            st = p.st.copy()
            st.store = {k: v for k, v in st.store.items()}
            me = deep(p.I, p.st, p.ret)
            st.store[('X', 'lim')] = me
            st.store[REC] = T('seq', *rec)
            st.store[CASE] = T('fresh')
            cl.running = True
            before = cl.n['sends']
            outs = ck.run(run, [T('ref', ('X', 'lim'), ())], st, segs=True, nojoin=True, lock_havoc=False, overrides=cl.overrides())
            ck.ob(not outs, 'ends', ck.sp(run), 'the limiter ends')
            ck.ob(cl.n['sends'] - before >= count + 1, 'none', ck.sp(run), f'only {cl.n["sends"] - before} requests are followed through a limit of {count}')
            total += cl.n['sends'] - before
            # a request takes exactly one permit, of this very channel, waiting for it
            for q in ck.run(recv, [T('ref', ('X', 'lim'), ())], st, nojoin=True, keep=lambda x: x.startswith(CH)):
                ev = [e for e in q.evs() if e.a[0].startswith(CH)]
                waits += 1
                ok = len(ev) == 1 and ev[0].a[0] == CH + 'Receiver::recv' and any(x.op == 'chan' for x in subterms(einfo(ev[0])[0]))
                ck.ob(ok, 'recv', ck.sp(recv), f'a request does not wait for exactly one permit of its limit: {ev!r}'[:300])
                if ok:
                    ck.ob(q.I.variant_of(q.st, q.ret) == q.I.variant_of(q.st, eret(ev[0])) or q.ret is eret(ev[0]), 'recv:result', ck.sp(recv), f'the wait for a permit is reported as {q.ret!r}'[:300])
    ck.floor('requests followed through the limiter', total, 14)
    ck.floor('waits for a permit', waits, 4)


PROPS = {'P14': [p14]}
