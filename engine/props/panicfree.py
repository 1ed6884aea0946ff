"""P16: nothing a peer sends makes the code that serves it panic.

Every function reachable from serving a connection (and from reading a response on the client) is analysed over all inputs; each
assertion, index, slice and unwrap met is an obligation that has to follow from the path conditions and the rules below."""
import re
import absint
import models
import libmore
import seg
import mir
from ck import Anchor
from terms import Int, NONE, T, is_c, project

RQ = 'http::requester::Requester::<Stream>::'
RP = 'http::responser::Responser::<Stream>::'
# units analysed on their own (a unit not in the tree any more is simply part of its callers)
UNITS = [RQ + x for x in ('from', 'parse', 'parse_request_line', 'parse_request_header', 'parse_others', 'fill_body', 'parse_body', 'response', 'write', 'interrupt')] + [
    RP + x for x in ('from', 'parse', 'parse_response_line', 'parse_response_header', 'parse_others', 'fill_body', 'request', 'write')] + [
    'http::url::location::Location::from_bytes', 'http::header::cookie::Cookie::read_cookies', 'http::header::cookie::Cookie::read_set_cookies',
    *(f'http::header::header::<impl http::values::Values>::{x}' for x in ('find_first', 'get_userinfo', 'get_accept_encoding', 'get_content_type', 'get_host', 'get_content_length', 'read_cookies')),
    'http::url::url::URL::from', 'server::node::Root::fetch', 'client::client::HttpClient::get', 'server::server::handle_connection', 'server::server::exec_stream']
# calls that may panic, with what makes them safe



def names_in(t):
    return {x.a[0] for x in walk(t, set()) if x.op == 'call' and isinstance(x.a[0], str)}


def walk(t, seen, stop=()):
    """All subterms"""
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                todo.extend(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        if x.op not in stop:
            todo.extend(x.a)
    return seen


class Run:
    """One function analysed over all inputs (with the given relations between its integer and sequence arguments)"""

    def __init__(self, prog, name, units, rel=None, invs=None):
        self.obl, self.pan, self.rec, self.deny, self.lim, self.outs = {}, [], {}, {}, None, []
        cut, own = {mir.canon(u) for u in units}, mir.canon(name)
        I_UNITS.update(cut)
        self.I = I = absint.Interp(prog, models.M, opaque=lambda n: n in cut and n != own, logs='off', max_steps=600000)
        I.on_oblig = self.ob
        I.interest = lambda p: False
        I.on_panic = lambda why, st, c: self.pan.append((why, st, c))
        I.on_call = self.call
        I.prove = lambda st, cond: holds_(I, st, cond)
        I.invs = {k: set(v) for k, v in (invs or {}).items()}
        body = prog.body(name)
        st = absint.State({}, {}, absint.NIL)
        args = [T('arg', body.lname(i + 1) or str(i)) for i in range(body.argc)]
        if rel:
            ts = quantities(I, st, args, body)
            SIZED.update(ts[a] for o, a, b in rel if o in ('Lt', 'Le') and b[0] == 'l')
            for o, a, b in rel:
                I.assume(st, I.binop(st, o, ts[a], ts[b]), True)
        try:
            self.outs = I.entry(name, args, st)
        except absint.Limit as e:
            self.lim = str(e)

    def ob(self, kind, op, data, st, fn, sp, cond, want):
        l = self.obl.setdefault((kind, op, fn, str(sp)), [0, None, want])
        l[0] += 1
        if l[1] is None and not ok(self.I, st, kind, op, data, cond, want):
            l[1], l[2] = cond, want

    def call(self, st, c, name, rpath):
        if name is not None and any(x[1] == name for x in c.chain):
            I, body = self.I, self.I.p.body(name)
            ts = quantities(I, st, c.args, body)
            new = frozenset((o, a, b) for a in ts for b in ts if a != b for o in ('Lt', 'Le', 'Eq') if holds_(I, st, I.binop(st, o, ts[a], ts[b])))
            old = self.rec.get(name)
            self.rec[name] = new if old is None else old & new
        why = denied(self.I, st, c, name, rpath)
        if why:
            self.deny.setdefault((rpath, c.fn, str(c.sp)), why)


def holds_(I, st, cond, d=0):
    if I.truth(st, cond) is True:
        return True
    if cond.op == 'bin' and cond.a[0] == 'Lt' and I.truth(st, I.binop(st, 'Eq', cond.a[1], cond.a[2])) is False and holds_(I, st, I.binop(st, 'Le', cond.a[1], cond.a[2])):
        return True
    s2, uns = axioms(I, st, cond)
    save = I.unsigned
    I.unsigned = save | uns
    try:
        if I.truth(s2, cond) is True:
            return True
    finally:
        I.unsigned = save
    # a + b <= x where b <= x - a was computed
    if d < 2 and cond.op == 'not' and cond.a[0].op == 'bin' and cond.a[0].a[0] == 'Lt':
        x, y = cond.a[0].a[1:]
        if y.op == 'bin' and y.a[0] == 'Add':
            return any(holds_(I, st, I.binop(st, 'Le', b, T('bin', 'Sub', x, a)), d + 1) for a, b in (y.a[1:], y.a[:0:-1]))
    return False


def quantities(I, st, args, body):
    """The integers among the arguments and the lengths of the sequences among them"""
    r = {'zero': Int(0)}
    for i, a in enumerate(args):
        t = body.ty(i + 1)
        if t.s in ('usize', 'u64', 'isize', 'i64', 'u32', 'i32'):
            r[f'n{i}'] = a
        elif 'Vec<' in t.s or '[' in t.s:
            r[f'l{i}'] = I.length(st, I.strip(st, a) if a.op == 'ref' else a)
    return r


def suspects(cond, want):
    """Upper bounds of loop variables that would settle an obligation: [(variable, bound)]"""
    r = []
    while cond.op == 'not':
        cond, want = cond.a[0], not want
    if cond.op == 'bin' and cond.a[0] in ('Lt', 'Le'):
        x, y = cond.a[1:]
        lo, hi = (x, y) if want else (y, x)
        for v in walk(lo, set()):
            if v.op == 'hv' and v not in walk(hi, set()):
                r.append((v, hi))
                if lo.op == 'bin' and lo.a[0] == 'Add':
                    r.append((v, hi))
    return r


def run(prog, name, units, rel=None):
    """One function; where an obligation fails on a loop variable, again with the bounds that variable keeps"""
    r = Run(prog, name, units, rel)
    invs, bad = {}, set()
    for _ in range(6):
        new = {(v, x) for (l, (n, b, w)) in r.obl.items() if b is not None for v, x in suspects(b, w)} - bad
        bad |= r.I.inv_bad
        new -= bad
        now = {(v, x) for v, xs in invs.items() for x in xs}
        if not new - now and not now & bad:
            break
        invs = {}
        for v, x in (now | new) - bad:
            invs.setdefault(v, set()).add(x)
        r = Run(prog, name, units, rel, invs)
    while r.I.inv_bad:
        bad |= r.I.inv_bad
        invs = {v: xs - {x for y, x in bad if y is v} for v, xs in invs.items()}
        r = Run(prog, name, units, rel, invs)
    return r


def go(prog, name, units):
    """Analyse one function and, for every recursion met, the callee for all arguments in the relations that hold at its calls"""
    runs = [run(prog, name, units)]
    done = {}
    todo = dict(runs[0].rec)
    while todo:
        n, rel = todo.popitem()
        if n in done and done[n][0] == rel:
            continue
        if n in done:
            rel = rel & done[n][0]
        r = run(prog, n, units, rel)
        done[n] = (rel, r)
        for m, x in r.rec.items():
            y = x if m not in done else x & done[m][0]
            if m not in done or y != done[m][0]:
                todo[m] = y if m not in todo else y & todo[m]
    return runs + [r for _, r in done.values()]


def name_of(t):
    return t.a[0].split('::')[-1] if t.op == 'call' and isinstance(t.a[0], str) else ''


def payload(t):
    """x for Ok(x)/Some(x) payload terms"""
    if t.op == 'f' and t.a[1] == '0' and t.a[0].op == 'as':
        return t.a[0].a[0], t.a[0].a[1]
    return None, None


def unbuf(v):
    """A buffer keeps its length when it is read into."""
    while v.op == 'eff' and v.a[0].split('::')[-1] in ('read', 'read_exact', 'peek'):
        v = v.a[3]
    return v


def readof(t):
    """(buffer) for the payload of a successful read"""
    x, v = payload(t)
    if x is not None and v == 'Ok' and name_of(x) in ('read', 'peek') and len(x.a[1]) == 2:
        return x.a[1][1]
    return None


PIECES = ('split', 'splitn', 'rsplit', 'rsplitn', 'split_terminator')


def axioms(I, st, t):
    """What the library guarantees about the terms in t: true in every state"""
    st = st.copy()

    def le(a, b):
        I.assume(st, I.binop(st, 'Le', a, b), True)
    uns = set()
    todo = walk(t, set())
    for _ in range(2):          # and about what the path conditions relate them to
        for f in list(st.facts):
            if isinstance(f, T) and f.op == 'bin' and f.a[0] in ('Lt', 'Eq') and f not in todo and (f.a[1] in todo and not is_c(f.a[1]) or f.a[2] in todo and not is_c(f.a[2])):
                walk(f, todo)
    straight = set()
    walk(t, straight, stop=('cast', 'call'))
    for x in sorted(todo, key=lambda x: x.i):
        n = name_of(x)
        if n in ('min', 'max') and len(x.a[1]) == 2:
            for a in x.a[1]:
                le(x, a) if n == 'min' else le(a, x)
            if any(I.nonneg(a) or is_c(a, 'int') and a.a[1] >= 0 or a.op == 'bin' for a in x.a[1]):
                uns.add(x)
        elif n == 'saturating_sub' and len(x.a[1]) == 2:
            le(x, x.a[1][0])
        elif x.op == 'bin' and x.a[0] == 'Sub':
            # computed only where it does not go below zero (an obligation of its own)
            le(x, x.a[1])
            if x in straight:
                le(Int(0), x)
        elif x.op == 'len':
            v = x.a[0]
            w = unbuf(v)
            if w is not v:
                I.assume(st, I.binop(st, 'Eq', x, I.length(st, w)), True)
            if v.op == 'split' and v.a[0] in PIECES:
                lo = 1
                if v.a[0] in ('split', 'rsplit') and I.truth(st, T('starts', v.a[1], v.a[2])) is True:
                    lo = 2
                le(Int(lo), x)
            if v.op in ('mget', 'mval'):
                le(Int(1), x)
            if v.op in ('push', 'pushs'):
                le(Int(1), x)
            if v.op == 'sub':
                I.assume(st, I.binop(st, 'Eq', x, I.binop(st, 'Sub', v.a[2], v.a[1])), True)
        if x.op == 'cast' and str(x.a[0]) in ('usize', 'u8', 'u16', 'u32', 'u64', 'u128'):
            le(Int(0), x)
        b = readof(x) if x.op == 'f' else None
        if b is not None:
            le(x, I.length(st, unbuf(b)))
            uns.add(x)
        y, v = payload(x) if x.op == 'f' else (None, None)
        if y is not None and v == 'Some' and name_of(y) in ('position', 'rposition', 'find', 'rfind'):
            uns.add(x)
            src = y.a[1][0]
            while src.op in ('iter', 'ref') and src.a and isinstance(src.a[0], T):
                src = src.a[0]
            I.assume(st, I.binop(st, 'Lt', x, I.length(st, src)), True)
    return st, uns


WIDE = ('usize', 'u64', 'i64', 'isize', 'u128', 'i128')


def sized(t):
    """A number of bytes or items in memory, read over one connection or counted one by one: far below 2^62"""
    if is_c(t, 'int'):
        return abs(t.a[1]) < 1 << 32
    if t.op in ('len', 'hv', 'count', 'undef', 'ix', 'ixof') or t in SIZED:
        return True
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        return sized(t.a[1]) and (t.a[0] == 'Sub' or sized(t.a[2]))
    if t.op == 'cast':
        return sized(t.a[1])
    if name_of(t) == 'min':
        return any(sized(a) for a in t.a[1])
    if name_of(t) == 'max':
        return all(sized(a) for a in t.a[1])
    if name_of(t) == 'len':
        return True
    if t.op == 'f':
        if readof(t) is not None:
            return True
        x, v = payload(t)
        if x is not None and name_of(x) in ('read_to_end', 'read_to_string', 'write', 'position', 'rposition', 'find', 'rfind', 'read_until'):
            return True
        # results of units: (value, number of bytes used)
        r = root(t)
        return r.op == 'call' and r.a[0] in I_UNITS
    return t.op == 'call' and t.a[0] in I_UNITS


I_UNITS = set()
SIZED = set()     # arguments at most the length of a sequence


def root(t):
    while t.op in ('f', 'as', 'p', 'el', 'deref'):
        t = t.a[0]
    return t


def spanlike(t):
    """A small number, or the number of whole seconds (or longer units) of a duration: these end at 2^63 milliseconds"""
    return is_c(t, 'int') and abs(t.a[1]) < 1 << 32 or name_of(t) in ('num_seconds', 'num_minutes', 'num_hours', 'num_days', 'num_weeks')


def ok(I, st, kind, op, data, cond, want):
    """Does the obligation hold in every state described?"""
    if I.truth(st, cond) is want or not seg.feasible(st.facts):
        return True
    if kind == 'overflow' and op == 'Add' and data.get('ty') is not None and data['ty'].s in WIDE and sized(data['a']) and sized(data['b']):
        return True
    if kind == 'overflow' and op in ('Add', 'Sub') and data.get('ty') is not None and data['ty'].s in ('i64', 'i128') and all(spanlike(data[x]) for x in 'ab'):
        return True
    s2, uns = axioms(I, st, cond)
    save = I.unsigned
    I.unsigned = save | uns
    try:
        if I.truth(s2, cond) is want or want and holds_(I, st, cond):
            return True
        if kind == 'char-boundary':
            return all(boundary(I, s2, data['str'], x) for x in (data['lo'], data['hi']))
    finally:
        I.unsigned = save
    return False


def boundary(I, st, s, x):
    """x is where a character of s begins, or its end"""
    if x is Int(0) or x is I.length(st, s):
        return True
    for c, v in st.facts.items():
        if v is True and isinstance(c, T) and c.op == 'starts' and c.a[0] is s and is_c(c.a[1], 'str'):
            p = c.a[1].a[1]
            if is_c(x, 'int') and any(len(p[:k].encode()) == x.a[1] for k in range(len(p) + 1)):
                return True
        if v is True and isinstance(c, T) and c.op == 'ends' and c.a[0] is s and is_c(c.a[1], 'str') and I.truth(st, I.binop(st, 'Eq', x, I.binop(st, 'Sub', I.length(st, s), Int(len(c.a[1].a[1].encode()))))) is True:
            return True
    # behind (or at) a character found in it
    y, o = x, 0
    if x.op == 'bin' and x.a[0] == 'Add' and is_c(x.a[2], 'int'):
        y, o = x.a[1], x.a[2].a[1]
    z, v = payload(y)
    if z is not None and v == 'Some' and name_of(z) in ('find', 'rfind') and z.a[1][0] is s:
        if o == 0:
            return True
        p = z.a[1][1]
        return is_c(p) and p.a[0] in ('str', 'char') and len(str(p.a[1]).encode()) == o
    return False


ROOTS = ('server::server::exec_stream', 'server::server::loop_exec', 'server::server::handle_connection', 'client::client::HttpClient::get')


def reachable(prog):
    roots = [prog.find(r) for r in ROOTS] + [n for n in prog.raw_fns if n.startswith('server::context::Context::') and '{' not in n]
    seen, todo = {}, [(r, None) for r in roots if r]
    kids = {}
    for m in prog.raw_fns:
        i = m.find('::{closure')
        if i > 0:
            kids.setdefault(m[:i], []).append(m)

    def f(x, n):
        st = [x]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('k') == 'fn' or 'rlocal' in x:
                    t = x.get('r') if x.get('rlocal') else (x.get('path') if x.get('local') else None)
                    if t:
                        todo.append((t, n))
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
    while todo:
        n, by = todo.pop()
        if n in seen or n not in prog.raw_fns:
            continue
        seen[n] = by
        f(prog.raw_fns[n], n)
        todo += [(m, n) for m in kids.get(n, ())]
    return seen


# library calls that panic (or abort) for some arguments, and what has to hold for them
AMOUNT = ('with_capacity', 'reserve', 'reserve_exact', 'resize', 'from_elem', 'repeat', 'zeroed', 'repeat_n')
UPTO = ('split_at', 'split_at_mut', 'split_off', 'split_to', 'advance', 'copy_to_bytes', 'rotate_left', 'rotate_right', 'insert_str')
ALWAYS = ('splice', 'copy_within', 'split_inclusive_at', 'extend_from_within', 'copy_from_slice', 'clone_from_slice', 'swap_with_slice', 'borrow_mut_cell',
          'timestamp_nanos', 'from_timestamp', 'from_timestamp_millis_opt_unwrap', 'from_ymd', 'and_hms', 'exit', 'abort', 'get_u8', 'get_u16', 'get_u32', 'get_u64', 'get_i32', 'copy_to_slice',
          'from_secs_f64', 'from_secs_f32', 'days', 'hours', 'minutes', 'seconds', 'weeks')
LIB = ('std::', 'core::', 'alloc::', 'bytes::', 'chrono::', '<std::', '<bytes::', '<chrono::', '<alloc::')


def denied(I, st, c, name, rpath):
    """Why a call of a library function may panic for its arguments, or None"""
    if name is not None or not rpath.startswith(LIB):
        return None
    n = c.path.split('::')[-1]
    if n == 'seconds' and root(I.strip(st, c.args[0])).op == 'call' and name_of(root(I.strip(st, c.args[0]))) == 'timestamp':
        return None     # every date chrono can represent is within the range of seconds of a duration
    if n == 'timestamp_nanos' and 'chrono::Local::now' in names_in(I.strip(st, c.args[0])):
        return None     # the clock of this machine
    if n in AMOUNT and ('Vec' in rpath or 'String' in rpath or 'bytes::' in rpath or 'slice' in rpath or 'str>' in rpath or 'vec::' in rpath):
        x = c.args[-1] if n != 'from_elem' else c.args[1]
        if n == 'resize':
            x = c.args[1]
        if not sized(I.strip(st, x)):
            return f'allocates {x!r} bytes or items'
    elif n in UPTO and len(c.args) >= 2 and 'HashMap' not in rpath:
        v = I.strip(st, c.args[0])
        if not holds_(I, st, I.binop(st, 'Le', c.args[1], I.length(st, v))):
            return f'{c.args[1]!r} may be beyond the end of {v!r}'
        if 'str>' in rpath or 'String' in rpath:
            if not boundary(I, axioms(I, st, c.args[1])[0], v, c.args[1]):
                return f'{c.args[1]!r} may be inside a character'
    elif n in ('drain', 'replace_range') and 'HashMap' not in rpath or n == 'slice' and 'bytes::' in rpath:
        v = I.strip(st, c.args[0])
        b = libmore.bounds(I, st, I.strip(st, c.args[1]), I.length(st, v))
        if b is None:
            return 'it panics for some arguments'
        if not (holds_(I, st, I.binop(st, 'Le', b[0], b[1])) and holds_(I, st, I.binop(st, 'Le', b[1], I.length(st, v)))):
            return f'{b[0]!r}..{b[1]!r} may be beyond the end of {v!r}'
        if 'String' in rpath and not all(boundary(I, axioms(I, st, x)[0], v, x) for x in b):
            return f'{b[0]!r}..{b[1]!r} may be inside a character'
    elif n in ALWAYS and not (n in ('days', 'hours', 'minutes', 'seconds', 'weeks') and ('TimeDelta' not in rpath or is_c(c.args[0]))):
        return 'it panics for some arguments'
    elif 'RefCell' in rpath and n in ('borrow', 'borrow_mut', 'replace', 'swap'):
        return 'it panics when already borrowed'
    elif n in ('chunks', 'chunks_exact', 'windows', 'step_by', 'rchunks') and not (is_c(c.args[1], 'int') and c.args[1].a[1] > 0):
        return 'it panics for a size of 0'
    return None


def always_some(prog, outs, t, seen=()):
    """Is the optional value t (a part of a unit's result) always Some? `outs` gives the abstract results of a unit."""
    steps, x = [], t
    while x.op in ('f', 'as', 'p', 'deref'):
        if x.op == 'f':
            steps.append(x.a[1])
        elif x.op == 'as':
            steps.append(('as', x.a[1]))
        elif x.op == 'p':
            steps.append(x.a[1])
        x = x.a[0]
    if x.op != 'call':
        return False
    u = x.a[0]
    if u.startswith('@rec:'):
        return True             # by induction on the depth of the recursion
    if u in seen:
        return True
    rs = outs(u)
    if not rs:
        return False
    for I, st, v in rs:
        for s in reversed(steps):
            v = I.strip(st, v)
            if isinstance(s, tuple) and s[0] == 'as':
                k = I.variant_of(st, v)
                if k is not None and k != s[1]:
                    v = None
                    break
            v = project(v, s)
            if v.op == 'bot':
                v = None
                break
        if v is None:
            continue
        k = I.variant_of(st, v)
        if k == 'Some':
            continue
        if k is not None or not always_some(prog, outs, I.strip(st, v), seen + (u,)):
            return False
    return True


def p16(ck):
    ck.rule('every assertion (arithmetic overflow, index, slice bound, character boundary), unwrap and explicit panic in a function reachable from serving a connection or from reading a response '
            'is impossible for every input: it follows from the conditions on the path, or from what the library guarantees (min, read, split, position …)')
    ck.rule('library calls that panic, or allocate an amount of memory, depending on their arguments are only made with arguments that cannot make them')
    p = ck.p
    units = [n for n in map(p.find, UNITS) if n]
    for r in ROOTS:
        ck.fn(r)
    done, res = {}, {}
    visited = set()

    def outs(u):
        n = p.find(u)
        return [(done[n][0].I, s, v) for s, v in done[n][0].outs] if n in done else None
    late = []
    for n in units:
        done[n] = go(p, n, units)
    reach = reachable(p)
    for n in units:
        for r in done[n]:
            visited |= r.I.visited
    extra = []
    for n in sorted(reach):
        if n not in visited and p.raw_fns[n]['kind'] in ('Fn', 'AssocFn'):
            rs = go(p, n, units)
            extra.append((n, rs))
            for r in rs:
                visited |= r.I.visited
    nob = 0
    for n, rs, peer in [(n, done[n], True) for n in units] + [(n, rs, False) for n, rs in extra]:
        for r in rs:
            ck.account(r.I, r.outs)
            ck.ob(r.lim is None, f'analysis:{n}', ck.sp(n), f'{n} is not analysable within the budget: {r.lim}')
            for (kind, op, fn, sp), (k, bad, _) in r.obl.items():
                nob += 1
                ck.ob(bad is None, f'{kind}:{fn}:{op or ""}', sp, f'{fn} may panic: the {kind} check {op or ""} is not implied for every input ({bad!r})')
            for why, st, c in r.pan:
                if not seg.feasible(st.facts):
                    continue
                v = I_strip(r.I, st, c)
                if v is not None and 'None' in why and always_some(p, outs, v):
                    ck.ob(True, f'panic:{c.fn}:{why}', c.sp, '')
                    continue
                ck.ob(False, f'panic:{c.fn}:{why}', c.sp, f'{c.fn} panics for some input: {why}')
            nob += len(r.deny)
            if peer:
                for (rp, fn, sp), why in r.deny.items():
                    ck.ob(False, f'call:{fn}:{rp}', sp, f'{fn} calls {rp} with an argument that may make it panic or exhaust memory: {why}')
    for n in sorted(reach):
        if p.raw_fns[n]['kind'] in ('Fn', 'AssocFn'):
            ck.ob(n in visited, f'covered:{n}', n, f'{n} is reachable from {reach[n]} and was not analysed')
    ck.floor('reachable functions analysed', len(visited & set(reach)), 200)
    ck.floor('checks met', nob, 15)


def nonempty(ck):
    """No value list of a name is ever empty: every function that can reach the map puts non-empty lists into it."""
    ck.rule('the list of values kept under a name is never empty: every function of the type that keeps them leaves each list it writes with at least one value')
    n = 0
    for f in ck.fns_matching(lambda n: n.startswith(VALS + '::') and '{' not in n):
        body = ck.p.body(f)
        if not body.argc or body.ty(1).k != 'ref' or 'Values' not in body.ty(1).s:
            continue
        I = absint.Interp(ck.p, models.M, logs='off')
        st = absint.State({}, {}, absint.NIL)
        old = T('arg', 'map')
        st.store[('X', 'v')] = T('agg', VALS, '', ('0',), (old,))
        for s, _ in I.entry(f, [T('ref', ('X', 'v'), ())] + [T('arg', body.lname(i + 1) or str(i)) for i in range(1, body.argc)], st):
            n += 1
            m = project(I.read(s, (('X', 'v'), ())), '0')
            while m.op in ('insert', 'remove'):
                if m.op == 'insert':
                    v = I.strip(s, m.a[2])
                    ck.ob(holds_(I, s, I.binop(s, 'Le', Int(1), I.length(s, v))), f'nonempty:{f}', ck.sp(f), f'{f} stores {v!r} under a name, which may be empty')
                m = m.a[0]
            ck.ob(m in (old, T('map0')), f'nonempty:{f}', ck.sp(f), f'the map of names and values is left as {m!r} by {f}')
        ck.account(I, [])
    ck.floor('ways to change named values', n, 8)


VALS = 'http::values::Values'


def I_strip(I, st, c):
    return I.strip(st, c.args[0]) if c.args else None


PROPS = {'P16': [p16, nonempty]}
