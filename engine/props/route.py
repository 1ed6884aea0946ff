"""Routing: method isolation, registration, lookup, group merging."""
from ck import *

METHODS = ['OPTIONS', 'GET', 'POST', 'PUT', 'DELETE', 'HEAD', 'TRACE', 'CONNECT', 'PATCH', 'LINK', 'UNLINK', 'PRI']
METHOD = 'http::method::Method'
RADD, RFETCH = 'server::node::Root::add', 'server::node::Root::fetch'


def method_consts(ck):
    """method name -> value of the constant Method::<NAME>"""
    I = absint.Interp(ck.p, models.M)
    r = {}
    for m in METHODS:
        ck.fn(f'{METHOD}::{m}')
        r[m] = I.eval_const(ck.p.find(f'{METHOD}::{m}'), None)
    return r


def is_node(n):
    return n.startswith('server::node::Node::')


def trees(ck, name, consts):
    """method -> (tree field of the routing root that the operation works on)"""
    got = {}
    body = ck.p.body(ck.fn(name))
    names = [body.lname(i + 1) for i in range(body.argc)]
    ck.ob(len(names) == (5 if name == RADD else 3), f'{name}:arity', ck.sp(name), f'unexpected parameters {names}')
    for m, v in consts.items():
        ps = ck.run(name, lambda I, st: [v if i == 2 - (name == RFETCH and 0) else A(n) for i, n in enumerate(names)],
                    opaque=is_node)
        for p in ps:
            evs = [e for e in p.evs() if e.a[0].startswith('server::node::Node::')]
            key = f'{name.split("::")[-1]}:{m}'
            if not ck.ob(len(evs) == 1, key + ':one', ck.sp(name), f'{m} reaches {len(evs)} tree operations instead of one'):
                continue
            e = evs[0]
            r = eargs(e)[0]
            f = None
            if r.op == 'ref' and r.a[0] == ('H', A(names[0])) and len(r.a[1]) == 1:
                f = r.a[1][0]
            ck.ob(f is not None, key + ':tree', ewhere(e), f'{m} does not work on a tree of this routing root but on {r!r}')
            got.setdefault(m, set()).add(f)
            rest = eargs(e)[1:]
            if name == RADD:
                want = [A(names[1]), v, A(names[3]), A(names[4])]
                ok = all(any(x is w for x in rest) for w in (want[0], want[2], want[3]))
                ck.ob(ok, key + ':args', ewhere(e), f'pattern, handler and extension of a {m} route are not all passed on unchanged: {rest!r}')
            else:
                ck.ob(any(x is A(names[1]) for x in rest), key + ':args', ewhere(e), f'the path looked up for {m} is {rest!r}')
                ck.ob(p.ret is eret(e), key + ':ret', ewhere(e), f'the result of the {m} lookup is replaced by {p.ret!r}')
    return got


def p01_trees(ck):
    ck.rule('for each of the 12 methods, registration and lookup work on the same tree of the root, and no other method uses that tree')
    consts = method_consts(ck)
    a, b = trees(ck, RADD, consts), trees(ck, RFETCH, consts)
    ck.floor('methods', len(a), 12)
    owner = {}
    for m in METHODS:
        fa, fb = a.get(m, set()), b.get(m, set())
        ck.ob(fa == fb and len(fa) == 1, f'tree:{m}', ck.sp(RFETCH), f'{m} routes are stored in {fa} but looked up in {fb}')
        for f in fa | fb:
            if f is not None:
                ck.ob(owner.setdefault(f, m) == m, f'shared:{m}', ck.sp(RFETCH), f'{m} and {owner[f]} share the tree {f}')


def router_fns(ck):
    """public registration functions of Router: name -> (method text, with extension?)"""
    r = {}
    for m in METHODS:
        b = 'option' if m == 'OPTIONS' else m.lower()
        r[f'server::router::Router::{b}'] = (m, False)
        r[f'server::router::Router::{b}_wf'] = (m, True)
    return r


def p01_router(ck):
    ck.rule('each of the 24 registration functions registers exactly once, on the shared root under its write lock, with its own method, '
            'pattern = group prefix + given pattern, and the given handler')
    consts = method_consts(ck)
    n = 0
    for fn, (m, wf) in router_fns(ck).items():
        names = [ck.p.body(ck.fn(fn)).lname(i + 1) for i in range(ck.p.body(ck.fn(fn)).argc)]
        ps = ck.run(fn, opaque=[RADD])
        ck.ob(bool(ps), fn + ':paths', ck.sp(fn), 'never returns')
        for p in ps:
            evs = p.named(RADD)
            if not ck.ob(len(evs) == 1, fn + ':once', ck.sp(fn), f'registers {len(evs)} times'):
                continue
            e = evs[0]
            a = eargs(e)
            n += 1
            self_ = A(names[0])
            root = fld(deref(self_), 'root')
            lk = [x for x in p.named('@lock')]
            ck.ob(any(eret(x).op == 'guard' and repr(root) in repr(eargs(x)[0]) and eargs(x)[1].a[0] in ('write', 'try_write')
                      for x in lk), fn + ':lock', ewhere(e), 'the route is not added under the write lock of the shared root')
            ck.ob(repr(root) in repr(a[0]), fn + ':root', ewhere(e), f'the route is added to {a[0]!r}')
            ck.ob(equiv(p.I, p.st, a[2], consts[m]), fn + ':method', ewhere(e), f'registers under {a[2]!r} instead of {m}')
            ck.ob(a[1] is cat([fld(deref(self_), 'pattern'), A(names[1])]), fn + ':pattern', ewhere(e),
                  f'the registered pattern is {a[1]!r} instead of the group prefix followed by the given pattern')
            ck.ob(a[3] is A(names[2]), fn + ':handler', ewhere(e), f'the registered handler is {a[3]!r}')
    ck.floor('registration paths', n, 24)


def p01_share(ck):
    ck.rule('router groups and clones of a server share the one routing root')
    for fn, ext in (('server::server::HttpServer::router', False), ('server::server::HttpServer::router_wf', True)):
        for p in ck.run(fn):
            r = deep(p.I, p.st, p.ret)
            root = fld(deref(A('self')), 'root')
            ck.ob(fld(p.ret, 'root') is root, fn + ':root', ck.sp(fn), f'the group works on {fld(r, "root")!r}')
            ck.ob(fld(r, 'pattern') is A('pattern'), fn + ':pattern', ck.sp(fn), f'the group prefix is {fld(r, "pattern")!r}')
            want = Some(A('extend')) if ext else NONE
            ck.ob(equiv(p.I, p.st, fld(r, 'extend'), want), fn + ':extend', ck.sp(fn), f'the group extension is {fld(r, "extend")!r}')
    cl = '<server::server::HttpServer as std::clone::Clone>::clone'
    for p in ck.run(cl):
        ck.ob(fld(p.ret, 'root') is fld(deref(A('self')), 'root'), 'clone:root', ck.sp(cl), 'a cloned server has another root')


def opt_pick(I, st, t, first, second):
    """t is `first` when that is Some, else `second`"""
    v = I.variant_of(st, first)
    if v == 'Some':
        return equiv(I, st, t, first)
    if v == 'None':
        return equiv(I, st, t, second)
    return False


def p04_merge(ck):
    ck.rule('effective extension: none only if neither route nor group has one; filters = route filters then group filters; '
            'limit and downgrade = the route\'s if it has one, else the group\'s')
    n = 0
    for fn, (m, wf) in router_fns(ck).items():
        b = ck.p.body(ck.fn(fn))
        names = [b.lname(i + 1) for i in range(b.argc)]
        for p in ck.run(fn, opaque=[RADD]):
            for e in p.named(RADD):
                n += 1
                x = deep(p.I, p.st, eargs(e)[4])
                g = fld(deref(A(names[0])), 'extend')
                gv = p.I.variant_of(p.st, g)
                ge = some_of(g)
                re = A(names[3]) if wf else None
                xv = p.I.variant_of(p.st, x)
                key = f'{fn}:{"e" if wf else "-"}{gv}'
                if not wf and gv == 'None':
                    ck.ob(xv == 'None', key, ewhere(e), f'a route without any extension is registered with {x!r}')
                    continue
                if not ck.ob(xv == 'Some' and gv is not None or equiv(p.I, p.st, x, Some(re) if wf else g), key, ewhere(e),
                             f'the extension of the route or its group is lost: {x!r}'):
                    continue
                if wf and gv == 'None':
                    ck.ob(equiv(p.I, p.st, x, Some(re)), key, ewhere(e), f'the route is registered with {x!r} instead of its own extension')
                elif not wf:
                    ck.ob(equiv(p.I, p.st, x, g), key, ewhere(e), f'the route is registered with {x!r} instead of the group\'s extension')
                else:
                    y = some_of(x)
                    ck.ob(fld(y, 'filters') is cat([fld(re, 'filters'), fld(ge, 'filters')]), key + ':filters', ewhere(e),
                          f'the filters are {fld(y, "filters")!r}, not the route\'s followed by the group\'s')
                    for f in ('limit', 'downgrade'):
                        ck.ob(opt_pick(p.I, p.st, fld(y, f), fld(re, f), fld(ge, f)), f'{key}:{f}', ewhere(e),
                              f'the {f} is {fld(y, f)!r} where the route has {p.I.variant_of(p.st, fld(re, f))}')
    ck.floor('merge cases', n, 48)


def p04_build(ck):
    ck.rule('the extension constructors keep the filters and limiter they are given')
    for fn, f, l in (('e1', True, False), ('e2', False, True), ('e3', True, True)):
        n = f'server::extend::Extend::{fn}'
        for p in ck.run(n):
            r = deep(p.I, p.st, p.ret)
            ck.ob(fld(r, 'filters') is (A('filters') if f else T('seq')) or (not f and is_empty(fld(r, 'filters'))), n + ':filters', ck.sp(n),
                  f'filters = {fld(r, "filters")!r}')
            ck.ob(equiv(p.I, p.st, fld(r, 'limit'), Some(A('limit')) if l else NONE), n + ':limit', ck.sp(n), f'limit = {fld(r, "limit")!r}')


def is_empty(v):
    return (v.op in ('seq', 'arr') and not v.a) or (is_c(v, 'str') and v.a[1] == '')


PROPS = {'P01': [p01_trees, p01_router, p01_share], 'P04': [p04_merge, p04_build]}


# ------------------------------------------------------------------ lookup
def kids(st):
    """child element terms of `self` that the path looked at: term -> True"""
    base = fld(deref(A('self')), 'next_nodes')
    r = {}
    for k in st.facts:
        for x in subterms(k if isinstance(k, T) else k[1]):
            if x.op == 'el' and x.a[0] is base:
                r[x] = True
    return list(r)


def roles(ck, entry, rec, nargs=None):
    """Parameter roles of the recursive routing function, from the values the entry passes on its first call."""
    consts = method_consts(ck)
    body = ck.p.body(ck.fn(entry))
    names = [body.lname(i + 1) for i in range(body.argc)]
    ps = ck.run(entry, lambda I, st: [consts['GET'] if n == 'method' else A(n) for n in names], opaque=lambda n: n == rec, nojoin=True)
    b = ck.p.body(ck.fn(rec))
    rn = [b.lname(i + 1) for i in range(b.argc)]
    role = None
    for p in ps:
        for e in p.named(rec):
            r = {}
            for i, x in enumerate(einfo(e)):
                if i == 0:
                    r[rn[0]] = 'self'
                elif x.op in ('sub', 'split', 'coll') and 'split' in repr(x):
                    r[rn[i]] = 'split'
                elif x is Int(0):
                    r[rn[i]] = 'index'
                elif x.op == 'len' and any(y.op == 'sub' for y in subterms(x)):
                    r[rn[i]] = 'len'
                else:
                    r[rn[i]] = repr(x)
            sp = next((x for x in einfo(e) if x.op in ('sub', 'split', 'coll') and 'split' in repr(x)), None)
            lenargs = [x for x in einfo(e) if x.op == 'len']
            pieces_ok = sp is not None and sp.op == 'sub' and sp.a[1] is Int(1) and sp.a[0].op == 'split' \
                and sp.a[0].a[0] == 'split' and sp.a[0].a[1] is A('pattern') and is_c(sp.a[0].a[2]) and sp.a[0].a[2].a[1] == '/' \
                and sp.a[2] is T('len', sp.a[0])
            ck.ob(pieces_ok, f'{rec}:pieces', ewhere(e), f'the pieces that are matched are {sp!r} instead of the path split at "/" after its leading "/"')
            for x in lenargs:
                ck.ob(sp is not None and x is T('len', sp), f'{rec}:len', ewhere(e), f'the number of pieces is taken to be {x!r}')
            if role is None:
                role = r
            ck.ob(role == r, f'{rec}:roles', ewhere(e), 'the routing functions are called in different ways')
    if role is None:
        raise Anchor(f'{entry} never reaches {rec}')
    return rn, {v: k for k, v in role.items()}, ps


def recs(ck, entry):
    consts = method_consts(ck)
    body = ck.p.body(ck.fn(entry))
    names = [body.lname(i + 1) for i in range(body.argc)]
    ps = ck.run(entry, lambda I, st: [consts['GET'] if n == 'method' else A(n) for n in names])
    r = set()
    for p in ps:
        for e in p.evs():
            if e.a[0].startswith('@rec:'):
                r.add(e.a[0][5:])
    b = sorted(n for n in r if ck.p.body(ck.fn(n)).ty(0).s == 'bool')
    return b, sorted(r - set(b)), ps


def is_last(st, idx1, lens):
    """Is index+1 the number of pieces on this path?  True / False / None"""
    for ln in lens:
        for a, b in ((ln, idx1), (idx1, ln)):
            v = st.facts.get(T('bin', 'Eq', a, b))
            if v is not None:
                return v
    # `index + 1 < len` phrasing
    for ln in lens:
        v = st.facts.get(T('bin', 'Lt', idx1, ln))
        if v is True:
            return False
        if v is False:
            return True
    return None


def matched(st, ch, q):
    """'lit' / 'any' / False / None: how child ch matches piece q on this path"""
    pp = fld(ch, 'pattern_piece')
    for a, b in ((q, pp), (pp, q)):
        if st.facts.get(T('bin', 'Eq', a, b)) is True:
            return 'lit'
    if st.facts.get(pp) == '?':
        return 'any'
    lit = next((st.facts[T('bin', 'Eq', a, b)] for a, b in ((q, pp), (pp, q)) if T('bin', 'Eq', a, b) in st.facts), None)
    ne = '?' in st.facts.get(('ne', pp), ())
    if lit is False and ne:
        return False
    return None


def rec_event(p_items, rec, ch):
    return [e for e in p_items if e.op == 'ev' and e.a[0] == '@rec:' + rec]


def p02_match(ck):
    ck.rule('lookup, by induction over the tree: a child is entered only if its piece equals the request piece at its depth or is a wildcard; '
            'the result is that child when it is at the last piece and has a handler, or what the same lookup one piece deeper in that child '
            'returns; a wildcard child adds exactly its name with that piece to the parameters; children are tried in registration order and '
            'nothing is reported missing before all of them failed')
    _, rs, ps = recs(ck, RFETCH)
    if len(rs) != 1:
        raise Anchor(f'the recursion of the lookup is {rs}')
    rec = rs[0]
    rn, role, eps = roles(ck, RFETCH, rec)
    for p in eps:
        evs = p.named(rec)
        if evs:
            ck.ob(len(evs) == 1 and p.ret is eret(evs[0]), 'entry:result', ck.sp(RFETCH), f'the lookup returns {p.ret!r}')
            ck.ob(p.st.facts.get(T('starts', A('pattern'), Str('/'))) is True, 'entry:slash', ck.sp(RFETCH),
                  'a path is matched without its leading "/" being checked')
        else:
            ck.ob(p.I.variant_of(p.st, p.ret) == 'None', 'entry:none', ck.sp(RFETCH), f'without a lookup the result is {p.ret!r}')
            ck.ob(p.st.facts.get(T('starts', A('pattern'), Str('/'))) is False, 'entry:none-why', ck.sp(RFETCH),
                  'a path that starts with "/" is not looked up')
    S, X = A(role['split']), A(role['index'])
    q = T('el', S, X)
    idx1 = T('bin', 'Add', X, Int(1))
    lens = [T('len', S)] + ([A(role['len'])] if 'len' in role else [])
    backs = []
    out = ck.run(rec, nojoin=True, on_back=lambda fn, h, s: backs.append(s), keep=lambda n: not n.startswith('@drop'))
    nsome = nnone = 0
    wildname = {'Some': 0, 'None': 0}
    for p in out:
        v = p.I.variant_of(p.st, p.ret)
        if v == 'None':
            nnone += 1
            base = fld(deref(A('self')), 'next_nodes')
            ck.ob(exhausted(p.I, p.st, base), 'none:exhausted', ck.sp(rec), 'the lookup gives up before every child was tried')
            continue
        nsome += 1
        if not ck.ob(v == 'Some' or p.ret.op == 'call', 'some:shape', ck.sp(rec), f'undecided result {p.ret!r}'):
            continue
        re = rec_event(p.evs(deep=False), rec, None)
        cand = [c for c in kids(p.st) if matched(p.st, c, q) in ('lit', 'any')]
        if not ck.ob(len(cand) == 1, 'some:match', ck.sp(rec),
                     'a node is returned although its piece was neither equal to the request piece nor a wildcard'):
            continue
        ch = cand[0]
        how = matched(p.st, ch, q)
        last = is_last(p.st, idx1, lens)
        pay = some_of(p.ret)
        if last is True:
            ck.ob(not re, 'terminal:norec', ck.sp(rec), 'the lookup descends below the last piece')
            ck.ob(p.st.facts.get(T('discr', fld(ch, 'handler'))) == 'Some', 'terminal:handler', ck.sp(rec),
                  'a node without a handler is returned as a match')
            ck.ob(equiv(p.I, p.st, fld(pay, '0'), ch), 'terminal:node', ck.sp(rec), f'the node returned is {fld(pay, "0")!r}')
            base = T('map0')
        elif ck.ob(last is False and len(re) == 1, 'deeper:once', ck.sp(rec), f'descends {len(re)} times into a child, last piece: {last}'):
            e = re[0]
            i = einfo(e)
            okargs = i[0] is ch
            for n, x in zip(rn[1:], i[1:]):
                want = idx1 if n == role['index'] else A(n)
                okargs = okargs and x is want
            ck.ob(okargs, 'deeper:args', ewhere(e), f'descends with {i!r}')
            rp = some_of(eret(e))
            ck.ob(p.I.variant_of(p.st, eret(e)) == 'Some' or p.ret is eret(e), 'deeper:some', ewhere(e), 'a failed descent is returned as a match')
            ck.ob(p.ret is eret(e) or pay is rp or equiv(p.I, p.st, fld(pay, '0'), fld(rp, '0')), 'deeper:node', ewhere(e),
                  f'the node returned is {fld(pay, "0")!r} instead of the one the descent found')
            base = fld(rp, '1')
        else:
            continue
        f = fld(some_of(p.ret), '1')
        if how == 'any':
            nm = fld(ch, 'pattern_piece_value')
            nv = p.I.variant_of(p.st, nm)
            # a literal '?' has no name
            if ck.ob(nv is not None, 'param:name', ck.sp(rec), 'a wildcard is passed without its name being recorded'):
                wildname[nv] += 1
                want = T('insert', base, some_of(nm), q) if nv == 'Some' else base
                ck.ob(f is want or equiv(p.I, p.st, f, want), f'param:{nv}', ck.sp(rec),
                      f'the parameters are {f!r} instead of {want!r}')
        else:
            ck.ob(f is base or equiv(p.I, p.st, f, base), 'param:literal', ck.sp(rec), f'a literal piece changes the parameters to {f!r}')
    for s in backs:
        cs = kids(s)
        ok = False
        for ch in cs:
            m = matched(s, ch, q)
            if m is False:
                ok = True
            elif m is None:
                # matched through a joined test: decided by what follows
                pass
            last = is_last(s, idx1, lens)
            if last is True and s.facts.get(T('discr', fld(ch, 'handler'))) == 'None':
                ok = True
            if last is False:
                for k, val in s.facts.items():
                    if isinstance(k, T) and k.op == 'discr' and k.a[0].op == 'call' and k.a[0].a[0].endswith(rec) and val == 'None' \
                            and ch in subterms(k.a[0].a[1]):
                        ok = True
        ck.ob(ok, 'skip', ck.sp(rec), 'a child that matches the piece is skipped although it has a handler, or its descent succeeded: '
                                      + repr({repr(k): v for k, v in s.facts.items()})[:400])
    ck.floor('matches', nsome, 4)
    ck.floor('failures', nnone, 1)
    ck.floor('skipped children', len(backs), 3)
    ck.ob(wildname['Some'] >= 2, 'param:paths', ck.sp(rec), 'wildcard parameters are not recorded at the last and at an inner piece')


# ------------------------------------------------------------------ registration
def p03_entry(ck):
    ck.rule('registration panics without changing the tree when the pattern does not start with "/" or the resource is occupied, and '
            'otherwise inserts below the root of its tree with all pieces of the pattern')
    bs, rs, _ = recs(ck, RADD)
    if len(rs) != 1 or len(bs) != 1:
        raise Anchor(f'the recursions of registration are {rs} and {bs}')
    ins, occ = rs[0], bs[0]
    consts = method_consts(ck)
    body = ck.p.body(ck.fn(RADD))
    names = [body.lname(i + 1) for i in range(body.argc)]
    ps = ck.run(RADD, lambda I, st: [consts['GET'] if n == 'method' else A(n) for n in names], opaque=lambda n: n in (ins, occ), nojoin=True)
    n = 0
    for p in ps:
        n += 1
        ei, eo = p.named(ins), p.named(occ)
        ck.ob(p.st.facts.get(T('starts', A('pattern'), Str('/'))) is True, 'add:slash', ck.sp(RADD), 'a pattern without a leading "/" is registered')
        if not ck.ob(len(ei) == 1 and len(eo) == 1, 'add:steps', ck.sp(RADD), 'a route is registered without exactly one occupancy test and one insertion'):
            continue
        ck.ob(p.evs().index(eo[0]) < p.evs().index(ei[0]), 'add:order', ewhere(eo[0]), 'the occupancy test comes after the insertion')
        ck.ob(p.I.truth(p.st, eret(eo[0])) is False, 'add:occupied', ewhere(eo[0]), 'an occupied resource is registered again')
        ck.ob(einfo(eo[0])[0] is einfo(ei[0])[0] and einfo(eo[0])[1] in einfo(ei[0])[1:], 'add:same', ewhere(eo[0]),
              'the occupancy test looks at another tree or other pieces than the insertion')
        ck.ob(all(x in einfo(ei[0]) for x in (A('pattern'), A('handler'), A('extend'))), 'add:args', ewhere(ei[0]),
              'the pattern, handler or extension is not what was given')
    ck.floor('registrations', n, 1)
    roles(ck, RADD, ins)


def p03_occupied(ck):
    ck.rule('occupancy, by induction: true iff some child has the same piece (any parameter counts as the same) and either is at the last '
            'piece with a handler or is itself occupied for the remaining pieces')
    bs, rs, _ = recs(ck, RADD)
    occ = bs[0]
    b = ck.p.body(ck.fn(occ))
    rn = [b.lname(i + 1) for i in range(b.argc)]
    backs = []
    out = ck.run(occ, nojoin=True, on_back=lambda fn, h, s: backs.append(s))
    S = A(rn[1])
    SS = (S, deref(S))
    qs = [w for s in SS for w in (T('el', s, Int(0)), deref(T('el', s, Int(0))))]
    base = fld(deref(A('self')), 'next_nodes')
    wilds = [T('starts', q, Str(':')) for q in qs]

    def same(st, ch):
        pp = fld(ch, 'pattern_piece')
        w = next((st.facts[x] for x in wilds if x in st.facts), None)
        if w is None:
            return None
        if w:
            if st.facts.get(pp) == '?':
                return True
            return False if '?' in st.facts.get(('ne', pp), ()) else None
        for q in qs:
            for x, y in ((q, pp), (pp, q)):
                v = st.facts.get(T('bin', 'Eq', x, y))
                if v is not None:
                    return v
        return None

    def last(st):
        for s in SS:
            ln = T('len', s)
            k = st.facts.get(ln)
            if k is not None:
                return k == 1
            if 1 in st.facts.get(('ne', ln), ()):
                return False
            for n in (ln, *(T('len', o) for o in SS)):
                rest = T('len', T('sub', s, Int(1), n))
                k = st.facts.get(rest)
                if k is not None:
                    return k == 0
                if 0 in st.facts.get(('ne', rest), ()):
                    return False
        return None

    def none_left(st):
        return any(st.facts.get(T('len', s)) == 0 for s in SS)

    def recres(p_or_st, ch, I):
        st = p_or_st
        for k, v in st.facts.items():
            if isinstance(k, T) and k.op == 'call' and k.a[0] == '@rec:' + occ and k.a[1][0] is ch:
                rest = k.a[1][1]
                if rest.op == 'sub' and rest.a[0] in SS and rest.a[1] is Int(1) and rest.a[2].op == 'len' and rest.a[2].a[0] in SS:
                    return v
        return None
    n = {True: 0, False: 0}
    for p in out:
        if not ck.ob(is_c(p.ret, 'bool') or (p.ret.op == 'call'), 'occ:result', ck.sp(occ), f'undecided {p.ret!r}'):
            continue
        r = p.ret.a[1] if is_c(p.ret) else p.st.facts.get(p.ret)
        if r:
            n[True] += 1
            ch = kids(p.st)
            ok = any(same(p.st, c) is True and ((last(p.st) is True and p.st.facts.get(T('discr', fld(c, 'handler'))) == 'Some')
                                              or (last(p.st) is False and recres(p.st, c, p.I) is True)) for c in ch)
            ck.ob(ok, 'occ:true', ck.sp(occ), 'a free resource is reported as occupied')
        else:
            n[False] += 1
            ck.ob(none_left(p.st) or exhausted(p.I, p.st, base), 'occ:false',
                  ck.sp(occ), 'a resource is reported as free before all children were looked at')
    for s in backs:
        ch = kids(s)
        ok = any(same(s, c) is False or (last(s) is True and s.facts.get(T('discr', fld(c, 'handler'))) == 'None')
                 or (last(s) is False and recres(s, c, None) is False) for c in ch)
        ck.ob(ok, 'occ:skip', ck.sp(occ), 'an occupied child is skipped: ' + repr(s.facts)[:300])
    ck.floor('occupancy results', n[True] + n[False], 3)
    ck.floor('occupancy skips', len(backs), 3)


def p03_insert(ck):
    ck.rule('insertion, by induction: exactly one child is continued in, an existing one only if its piece and parameter name are the same, '
            'else a new last child with the piece and name of the pattern; at the last piece that child gets pattern, handler and extension '
            'together and a limiter is started, and it panics if the child already serves a route; no other node changes')
    bs, rs, _ = recs(ck, RADD)
    ins = rs[0]
    rn, role, _ = roles(ck, RADD, ins)
    b = ck.p.body(ins)
    backs = []
    out = ck.run(ins, nojoin=True, on_back=lambda fn, h, s: backs.append(s), keep=lambda n: not n.startswith('@drop'))
    S, X = A(role['split']), A(role['index'])
    q = T('el', S, X)
    idx1 = T('bin', 'Add', X, Int(1))
    lens = [T('len', S)]
    self0 = deref(A('self'))
    base = fld(self0, 'next_nodes')
    cnt = {'old-leaf': 0, 'old-inner': 0, 'new-leaf': 0, 'new-inner': 0}

    def nameof(st):
        w = st.facts.get(T('starts', q, Str(':')))
        if w is None:
            return None, None, None
        return w, (Str('?') if w else q), (Some(T('sub', q, Int(1), T('len', q))) if w else NONE)
    for p in out:
        I, st = p.I, p.st
        w, piece, name = nameof(st)
        if not ck.ob(w is not None, 'ins:param', ck.sp(ins), 'a piece is inserted without checking whether it is a parameter'):
            continue
        last = is_last(st, idx1, lens)
        if not ck.ob(last is not None, 'ins:last', ck.sp(ins), 'undecided whether this is the last piece'):
            continue
        me = I.read(st, (('H', A('self')), ()))
        nn = fld(me, 'next_nodes')
        ck.ob(me is self0 or (me.op == 'upd' and me.a[0] is self0 and me.a[1] == 'next_nodes'), 'ins:only-children', ck.sp(ins),
              f'the node above the inserted one changes: {me!r}'[:300])
        re = [e for e in p.evs(deep=False) if e.a[0] == '@rec:' + ins]
        new = None
        if nn.op == 'pushs' and nn.a[0] is base:
            new = nn.a[1]
        kind = ('new' if new is not None else 'old') + ('-leaf' if last else '-inner')
        cnt[kind] += 1
        if new is not None:
            node0 = new
            while node0.op == 'eff':
                node0 = node0.a[3]
            ck.ob(equiv(I, st, fld(node0, 'pattern_piece'), piece) and equiv(I, st, fld(node0, 'pattern_piece_value'), name),
                  kind + ':piece', ck.sp(ins), f'the new node is for {fld(node0, "pattern_piece")!r}/{fld(node0, "pattern_piece_value")!r}')
            ck.ob(is_empty(fld(node0, 'next_nodes')), kind + ':fresh', ck.sp(ins), 'the new node has children')
            ck.ob(exhausted(I, st, base), kind + ':after-search', ck.sp(ins), 'a new node is made before all children were compared')
            leaf = new
        else:
            ch = kids(st)
            if not ck.ob(len(ch) >= 1, kind + ':child', ck.sp(ins), 'nothing is inserted'):
                continue
            ch = ch[0]
            pp, pv = fld(ch, 'pattern_piece'), fld(ch, 'pattern_piece_value')
            samep = (st.facts.get(pp) == '?') if w else any(st.facts.get(T('bin', 'Eq', x, y)) is True for x, y in ((q, pp), (pp, q)))
            vn = st.facts.get(T('discr', pv))
            eqn = any(v is True and isinstance(k, T) and k.op == 'bin' and k.a[0] == 'Eq' and pv in subterms(k) and
                      any(x is name or x is (some_of(name) if w else None) or equiv(I, st, x, name) for x in k.a[1:]) for k, v in st.facts.items())
            ck.ob(samep, kind + ':same-piece', ck.sp(ins), 'a route is inserted into a child with another piece')
            ck.ob(eqn or (not w and vn == 'None'), kind + ':same-name', ck.sp(ins), 'a route is inserted into a child with another parameter name')
            ad = (('H', A('self')), ('next_nodes', ch.a[1] if False else ('idx', ch.a[1])))
            leaf = I.read(st, ad)
            z = nn
            while z.op == 'upd' and z.a[1] == ('idx', ch.a[1]):
                z = z.a[0]
            ck.ob(z is base, kind + ':others', ck.sp(ins), 'other children change')
        if last:
            ck.ob(not re, kind + ':norec', ck.sp(ins), 'descends below the last piece')
            if new is None:
                ck.ob(st.facts.get(T('discr', fld(ch, 'pattern'))) == 'None' or st.facts.get(T('discr', fld(ch, 'handler'))) == 'None',
                      kind + ':free', ck.sp(ins), 'a route that is already served is replaced')
            ck.ob(equiv(I, st, fld(leaf, 'handler'), Some(A('handler'))), kind + ':handler', ck.sp(ins), f'the handler stored is {fld(leaf, "handler")!r}')
            ck.ob(equiv(I, st, fld(leaf, 'extend'), A('extend')), kind + ':extend', ck.sp(ins), f'the extension stored is {fld(leaf, "extend")!r}')
            ck.ob(equiv(I, st, fld(leaf, 'pattern'), Some(A('pattern'))), kind + ':pattern', ck.sp(ins), f'the pattern stored is {fld(leaf, "pattern")!r}')
            lim = fld(some_of(A('extend')), 'limit')
            spawns = p.named('std::thread::Builder::spawn', 'std::thread::spawn')
            has_limit = st.facts.get(T('discr', A('extend'))) == 'Some' and st.facts.get(T('discr', lim)) == 'Some'
            if has_limit:
                okc = len(spawns) == 1 and some_of(lim) in subterms(eargs(spawns[0])[-1])
                ck.ob(okc, kind + ':limiter', ck.sp(ins), 'the limiter of the route is not started exactly once')
                if okc:
                    clo = eargs(spawns[0])[-1]
                    runs = limiter_runs(ck, clo)
                    ck.ob(runs, kind + ':limiter-run', ewhere(spawns[0]), 'the thread started for the limiter does not run it')
            else:
                known_none = st.facts.get(T('discr', A('extend'))) == 'None' or st.facts.get(T('discr', lim)) == 'None'
                ck.ob(not spawns, kind + ':no-limiter', ck.sp(ins), 'a thread is started for a route without limiter')
                del known_none
        else:
            if ck.ob(len(re) == 1, kind + ':rec', ck.sp(ins), f'descends {len(re)} times'):
                i = einfo(re[0])
                want_first = ch if new is None else None
                ok = (want_first is None or i[0] is want_first) and all(
                    x is (idx1 if n == role['index'] else A(n)) for n, x in zip(rn[1:], i[1:]) if n not in ('method',))
                ck.ob(ok, kind + ':args', ewhere(re[0]), f'descends with {i!r}'[:400])
                if new is not None:
                    ck.ob(new.op == 'eff' and new.a[0] == '@rec:' + ins, kind + ':descend', ewhere(re[0]), 'the descent does not go into the new node')
    for s in backs:
        w, piece, name = nameof(s)
        ok = False
        for ch in kids(s):
            pp, pv = fld(ch, 'pattern_piece'), fld(ch, 'pattern_piece_value')
            if w is not None:
                if w and '?' in s.facts.get(('ne', pp), ()):
                    ok = True
                if not w and any(s.facts.get(T('bin', 'Eq', x, y)) is False for x, y in ((q, pp), (pp, q))):
                    ok = True
                if any(v is False and isinstance(k, T) and k.op == 'bin' and pv in subterms(k) for k, v in s.facts.items()):
                    ok = True
                if s.facts.get(T('discr', pv)) == ('None' if w else 'Some'):
                    ok = True
        ck.ob(ok, 'ins:skip', ck.sp(ins), 'a child for the same piece and name is skipped')
    for k, v in cnt.items():
        ck.floor(f'insertions {k}', v, 1)


def limiter_runs(ck, clo):
    I = absint.Interp(ck.p, models.M, opaque=lambda n: n == 'server::limit::Limit::run', max_steps=20000)
    c = absint.Call()
    c.fn = c.sp = ''
    c.path, c.args, c.tys, c.site, c.chain, c.f = '@x', [], [], (0, 0), (('entry', 'x'),), {}
    outs = I.call_value(absint.State({}, {}, absint.NIL), clo, [], c)
    ck.account(I, outs)
    return bool(outs) and all(sum(1 for x in absint.items_of(s.trace) if x.op == 'ev' and x.a[0] == 'server::limit::Limit::run') == 1
                              for s, _ in outs) or any(x.startswith('server::limit::Limit::run') for x in I.visited)


PROPS.update({'P02': [p02_match], 'P03': [p03_entry, p03_occupied, p03_insert]})
