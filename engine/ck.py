"""Obligation bookkeeping shared by the property rules: anchors, analyses, verdicts, evidence."""
import json
import os
import sys
import time
import traceback

sys.setrecursionlimit(40000)
import absint
import dump
import mir
import models
import seg
import libmore
from terms import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('STARRY_OUT', VERIF)


class Anchor(Exception):
    """Something the rule is anchored to is not in the tree (or is there more than once)."""


class Path:
    """One abstract path of an analysed entry: its result, final state, and observable items."""

    def __init__(self, I, st, ret):
        self.I, self.st, self.ret = I, st, ret
        self.items = absint.items_of(st.trace)

    def evs(self, deep=True):
        """All events, in order; with deep, the events of loop bodies too (each as many times as bodies)."""
        return list(flat(self.I, self.items)) if deep else [x for x in self.items if x.op == 'ev']

    def named(self, *paths):
        return [e for e in self.evs() if e.a[0] in paths or any(p.endswith('*') and e.a[0].startswith(p[:-1]) for p in paths)]


def flat(I, items):
    for it in items:
        if it.op == 'ev':
            yield it
        elif it.op == 'loop':
            for b in sorted(I.loops.get(it, ()), key=lambda b: len(b)):
                yield from flat(I, b)


def epath(e):
    return e.a[0]


def eargs(e):
    return e.a[1]


def eret(e):
    return e.a[2]


def einfo(e):
    return e.a[5] or e.a[1]


def equiv(I, st, a, b, d=0):
    """Do two abstract values denote the same value on a path with these facts?"""
    if a is b:
        return True
    if d > 12:
        return False
    if b.op == 'agg' and a.op != 'agg':
        a, b = b, a
    if a.op == 'agg':
        if b.op == 'agg':
            return a.a[:3] == b.a[:3] and all(equiv(I, st, x, y, d + 1) for x, y in zip(a.a[3], b.a[3]))
        v = I.variant_of(st, b)
        if v is None and a.a[0].split('::')[-1] == a.a[1]:
            return bool(a.a[2]) and all(equiv(I, st, x, T('f', b, n) if b.op not in ('upd',) else project(b, n), d + 1)
                                        for n, x in zip(a.a[2], a.a[3]))
        if v != a.a[1]:
            return False
        pb = project(b, ('as', v))
        return all(equiv(I, st, x, project(pb, n), d + 1) for n, x in zip(a.a[2], a.a[3]))
    if a.op == 'cat' and b.op == 'cat' and len(a.a) == len(b.a):
        return all(equiv(I, st, x, y, d + 1) for x, y in zip(a.a, b.a))
    if is_c(b) and not is_c(a):
        a, b = b, a
    if is_c(a):
        k = st.facts.get(b)
        return k is not None and type(k) is type(a.a[1]) and k == a.a[1]
    if a.op == b.op and a.op in ('seq', 'arr', 'tup', 'insert', 'push', 'pushs') and len(a.a) == len(b.a):
        return all(equiv(I, st, x, y, d + 1) for x, y in zip(a.a, b.a))
    return False


def deep(I, st, v, d=0):
    """Value with the references to known contents resolved."""
    v = I.strip(st, v)
    if d > 8:
        return v
    if v.op == 'agg':
        return T('agg', v.a[0], v.a[1], v.a[2], tuple(deep(I, st, x, d + 1) for x in v.a[3]))
    if v.op in ('tup', 'seq', 'arr'):
        return T(v.op, *[deep(I, st, x, d + 1) for x in v.a])
    return v


def counter(I, t):
    """Is this the variable of a counting loop: 0 at first, one more after every round?"""
    if t.op != 'hv' or t not in I.hsrc:
        return False
    src = I.hsrc[t]
    ints = sorted(x.a[1] for x in src if is_c(x, 'int'))
    return ints == list(range(len(ints))) and bool(ints) and T('bin', 'Add', t, Int(1)) in src and len(src) == len(ints) + 1


def exhausted(I, st, coll):
    """Did this path go through every element of the collection?"""
    for k, v in st.facts.items():
        if v is False and isinstance(k, T):
            if k.op == 'more' and k.a[0] is coll:
                return True
            if k.op == 'bin' and k.a[0] == 'Lt' and k.a[2] is T('len', coll) and counter(I, k.a[1]):
                return True
    return False


def holds(t, x):
    """Does term x occur in t?"""
    return x is not None and any(y is x for y in subterms(t))


def deref(x):
    return T('deref', x)


def A(n):
    return T('arg', n)


def fld(t, *names):
    for n in names:
        t = project(t, n)
    return t


def some_of(t):
    return project(project(t, ('as', 'Some')), '0')


def ewhere(e):
    return f'{e.a[4]}' if len(e.a) > 4 else ''


class Ck:
    def __init__(self, pid, prog):
        self.pid = pid
        self.p = prog
        self.viol = {}
        self.nob = 0
        self.ndis = 0
        self.fns = set()
        self.paths = 0
        self.sites = set()
        self.rules = []
        self.samples = []
        self.assum = []
        self.counts = {}
        self.steps = 0
        self.unmod = {}

    # ---- verdicts
    def ob(self, ok, key, where, msg):
        self.nob += 1
        if ok:
            self.ndis += 1
            if len(self.samples) < 12 and (self.nob % 7 == 1 or self.nob < 4):
                self.samples.append(f'{key} @ {where}: holds')
        else:
            if key not in self.viol:
                self.viol[key] = (where, msg)
        return ok

    def rule(self, text):
        self.rules.append(text)

    def floor(self, name, n, least):
        self.counts[name] = self.counts.get(name, 0) + n
        self.ob(n >= least, f'floor:{name}', name, f'only {n} instances of "{name}" were found, at least {least} expected: '
                                                   f'the rule no longer sees what it was confirmed on')

    # ---- anchors
    def fn(self, name):
        n = self.p.find(name)
        if n is None:
            raise Anchor(f'function {name} is not in the tree')
        return n

    def fns_matching(self, pred):
        return sorted(n for n in self.p.raw_fns if pred(n))

    def sp(self, name):
        try:
            n = self.p.find(name)
            return self.p.body(n).span if n else name
        except Exception:
            return name

    # ---- analysis
    def run(self, name, args=None, st=None, keep=None, nojoin=False, on_back=None, segs=False, **kw):
        """Analyse one entry; returns its abstract paths. `keep` is the set of event names worth keeping."""
        n = self.fn(name)
        kw.setdefault('logs', 'off')
        kw.setdefault('max_steps', 300000)
        if keep is not None:
            kw['interest'] = keep if callable(keep) else mk_interest(keep)
        I = absint.Interp(self.p, models.M, **kw)
        self.last = I
        if segs and not I.on_oblig:
            I.on_oblig = self.certain(I)
            I.on_panic = lambda why, st, c: self.panicked(why, st, c.fn, c.sp)
        I.nojoin = nojoin
        I.segmode = segs
        I.on_back = on_back
        if callable(args):
            st = st or absint.State({}, {}, absint.NIL)
            args = args(I, st)
        outs = I.entry(n, args, st)
        if segs:
            outs = [(s, v) for s, v in outs if seg.feasible(s.facts)]
        self.account(I, outs)
        return [Path(I, s, v) for s, v in outs]

    def certain(self, I):
        """Obligations that certainly fail on a feasible path: the code panics for the input analysed."""
        def f(kind, op, data, st, fn, sp, cond, want):
            if I.truth(st, cond) is (not want):
                self.panicked(f'{kind} check fails', st, fn, sp)
        return f

    def panicked(self, why, st, fn, sp):
        if seg.feasible(st.facts):
            self.ob(False, f'panic:{fn}:{why}', sp, f'{fn} panics ({why}) for an input this rule analyses')

    def account(self, I, outs):
        self.fns |= I.visited
        self.sites |= I.sites
        self.paths += len(outs)
        self.steps += I.steps
        for k, v in I.unmodelled.items():
            self.unmod[k] = self.unmod.get(k, 0) + v


def mk_interest(names):
    ex = {n for n in names if not n.endswith('*')}
    pre = tuple(n[:-1] for n in names if n.endswith('*'))

    def f(p):
        return p in ex or (pre and p.startswith(pre))
    return f


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    r = {}
    for e in json.load(open(p)).get('open', []):
        r[(e['property'], e['key'])] = e
    return r


def run_property(pid, rulefn, prog, tier, meta):
    t0 = time.time()
    ck = Ck(pid, prog)
    parts = rulefn if isinstance(rulefn, (list, tuple)) else [rulefn]
    for part in parts:
        try:
            part(ck)
        except Anchor as e:
            ck.ob(False, f'anchor:{part.__name__}:{e}', part.__name__, f'{e}; the rule "{part.__name__}" cannot be decided')
        except absint.Limit as e:
            ck.ob(False, f'analysis:{part.__name__}', part.__name__, f'not analysable within the budget: {e}')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ck.ob(False, f'analysis:{part.__name__}', part.__name__,
                  f'the code has a shape the rule cannot decide ({type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno})')
            if os.environ.get('STARRY_DEBUG'):
                traceback.print_exc()
    kn = known()
    fresh, old = [], []
    for k, (where, msg) in ck.viol.items():
        (old if (pid, k) in kn else fresh).append((k, where, msg))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': meta + ' Rules: ' + ' | '.join(ck.rules),
            'obligations': ck.nob, 'discharged': ck.ndis,
            'functions_analysed': len(ck.fns), 'abstract_paths': ck.paths, 'call_sites': len(ck.sites),
            'abstract_steps': ck.steps, 'instances': ck.counts,
            'rule': 'one obligation per rule instance (function, call site, path or table entry) found in the current tree',
            'samples': ck.samples[:12],
            'functions': sorted(ck.fns)[:200],
            'library_calls_without_model': sorted(ck.unmod)[:60],
        },
        'assumptions': ck.assum,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(fresh),
    }
    rd = os.path.join(OUT, 'evidence', 'reports')
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, f'{pid}.txt')
    with open(rp, 'w') as f:
        for tag, l in (('VIOLATION', fresh), ('KNOWN', old)):
            for k, where, msg in l:
                f.write(f'{tag} [{k}]\n  at {where}\n  {msg}\n')
    with open(os.path.join(OUT, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for k, where, msg in old:
        print(f'KNOWN-FINDING: property={pid} {k} at {where}: {msg}')
    for k, where, msg in fresh:
        print(f'  [{k}] at {where}: {msg}')
    if fresh:
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    print(f'OK property={pid} obligations={ck.nob} functions={len(ck.fns)} paths={ck.paths} {ev["wall_s"]}s')
    return 0


def load():
    return mir.Program(dump.build())
