"""Collections of named values: queries, forms, headers, and the files of a multipart form."""
from itertools import product

from ck import *
import seg
from seg import R, S

VAL, MUL, FH, CT = 'http::values::Values', 'http::values::MultipartValues', 'http::values::FileHeader', 'http::header::content_type::ContentType'
ME = T('ref', ('X', 'vals'), ())


def play(ck, cls, steps, facts=None):
    """Every way a new collection can go through these calls: [(interpreter, state, results)]"""
    cur = []
    for p in ck.run(f'{cls}::new', [], segs=True, nojoin=True, keep=lambda x: False):
        st = p.st.copy()
        st.store[('X', 'vals')] = p.ret
        st.facts.update(facts or {})
        cur.append((p.I, st, ()))
    for op, args in steps:
        nxt = []
        for I, st, rs in cur:
            for s, v in I.entry(ck.fn(f'{cls}::{op}'), [ME, *args], st.copy()):
                if seg.feasible(s.facts):
                    nxt.append((I, s, rs + (deep(I, s, v),)))
        cur = nxt
    for I, st, rs in cur:
        ck.account(I, [])
    return cur


def opt(I, st, x):
    v = I.variant_of(st, x)
    return ('Some', some_of(x)) if v == 'Some' else (v, None)


def maps(I, st, m):
    """The contents of a map as {name: value}"""
    es = seg.entries(I, st, m, 12)
    return None if es is None else {k: I.strip(st, v) for k, v in es}


def lst(x):
    return T('seq', *x)


def p67_values(ck):
    ck.rule('every sequence of up to four changes (set, add, delete; owned or borrowed texts) to two different names, followed by every question: the answer is that of a list of values per name')
    w = ck.sp(f'{VAL}::add')
    V = [R(f'V{i}', '', solid=False) for i in range(4)]
    K = R('K')
    pairs = [((Str('a'), Str('b')), {}), ((Str('Ab'), Str('aB')), {}), ((K, S(K, '2')), {}), ((Str(''), K), {})]
    changes = ['set', 'add', 'set_str', 'add_str', 'del']
    n = 0
    seen = set()
    for pi, (ks, facts) in enumerate(pairs):
        progs = [()]
        for size in (1, 2, 3, 4) if pi == 0 else (1, 2):
            progs += [x for x in product(product(changes, (0, 1)), repeat=size)
                      if x[0][1] == 0 and (size < 3 or not any('_str' in o for o, _ in x)) and (pi in (0, 2) or not any('_str' in o for o, _ in x))]
        for prog in progs:
            have = {}
            steps, want = [], []
            for i, (op, k) in enumerate(prog):
                steps.append((op, [ks[k]] if op == 'del' else [ks[k], V[i]]))
                old = have.get(ks[k])
                if op == 'del':
                    want.append(('del', old[0] if old else None))
                    have.pop(ks[k], None)
                else:
                    want.append(None)
                    have[ks[k]] = (list(old) if old and op.startswith('add') else []) + [V[i]]
            asks = [(q, [k]) for q in ('get', 'vec', 'contain') for k in ks] + [('len', []), ('map', [])]
            for q, a in asks:
                k = a[0] if a else None
                want.append({'get': ('get', have[k][0] if k in have else None), 'vec': ('vec', lst(have[k]) if k in have else None), 'contain': ('is', k in have),
                             'len': ('len', len(have)), 'map': ('map', {k: lst(v) for k, v in have.items()})}[q])
            what = ', '.join(f'{o}({ks[k]!r})' for o, k in prog) or 'nothing'
            outs = play(ck, VAL, steps + asks)
            if not outs:
                ck.ob(False, 'values:none', w, f'after {what}, the values cannot be read')
            for I, st, rs in outs:
                for (op, a), r, x in zip(steps + asks, rs, want):
                    n += 1
                    if x is None:
                        continue
                    if x[0] in ('get', 'vec', 'del'):
                        v, y = opt(I, st, r)
                        good = (v == 'None') if x[1] is None else v == 'Some' and (y is x[1])
                    elif x[0] == 'is':
                        good = I.truth(st, r) is x[1]
                    elif x[0] == 'len':
                        good = r is Int(x[1]) or r.op == 'len' and (maps(I, st, r.a[0]) is not None and len(maps(I, st, r.a[0])) == x[1])
                    else:
                        good = maps(I, st, r) == x[1]
                    if good:
                        ck.ob(True, f'values:{op}', w, '')
                    else:
                        ck.ob(False, f'values:{op}', ck.sp(f'{VAL}::{op}'), f'after {what}: {op}({", ".join(map(repr, a))}) gives {r!r}, not {x[1]!r}')
    ck.floor('questions to named values', n, 6000)


def p67_files(ck):
    ck.rule('every sequence of up to three insertions and deletions of two different names: each name has the file that was inserted last, and the file it replaced is handed back; a file has the name, size, content given')
    w = ck.sp(f'{MUL}::insert')
    F = [A(f'file{i}') for i in range(3)]
    ks = (Str('a'), Str('b'))
    n = 0
    for size in (0, 1, 2, 3):
        for prog in product(product(('insert', 'del'), (0, 1)), repeat=size):
            have, steps, want = {}, [], []
            for i, (op, k) in enumerate(prog):
                steps.append((op, [ks[k]] if op == 'del' else [ks[k], F[i]]))
                want.append(('o', have.pop(ks[k], None)))
                if op == 'insert':
                    have[ks[k]] = F[i]
            asks = [(q, [k]) for q in ('get', 'have') for k in ks] + [('len', []), ('map', [])]
            for q, a in asks:
                k = a[0] if a else None
                want.append({'get': ('o', have.get(k)), 'have': ('is', k in have), 'len': ('len', len(have)), 'map': ('map', have)}[q])
            what = ', '.join(f'{o}({ks[k]!r})' for o, k in prog) or 'nothing'
            outs = play(ck, MUL, steps + asks)
            if not outs:
                ck.ob(False, 'files:none', w, f'after {what}, the files cannot be read')
            for I, st, rs in outs:
                for (op, a), r, x in zip(steps + asks, rs, want):
                    n += 1
                    if x[0] == 'o':
                        v, y = opt(I, st, r)
                        good = (v == 'None') if x[1] is None else v == 'Some' and y is x[1]
                    elif x[0] == 'is':
                        good = I.truth(st, r) is x[1]
                    elif x[0] == 'len':
                        good = r is Int(x[1]) or r.op == 'len' and (maps(I, st, r.a[0]) is not None and len(maps(I, st, r.a[0])) == x[1])
                    else:
                        good = maps(I, st, r) == x[1]
                    if good:
                        ck.ob(True, f'files:{op}', w, '')
                    else:
                        ck.ob(False, f'files:{op}', ck.sp(f'{MUL}::{op}'), f'after {what}: {op}({", ".join(map(repr, a))}) gives {r!r}, not {x[1]!r}')
    N, C, TY = R('N', '', solid=False), R('C', '', solid=False), A('type')
    N2, C2 = R('N2', '', solid=False), R('C2', '', solid=False)
    A0, B0 = Str('a'), Str('b')
    first = ('insert_obj', [A0, N2, C2, A('other')])
    for key, before in (('new', []), ('replaced', [first]), ('other', [('insert_obj', [B0, N2, C2, A('other')])]), ('again', [first, ('del', [A0])])):
        for I, st, rs in play(ck, MUL, before + [('insert_obj', [A0, N, C, TY]), ('get', [A0])]):
            k = 'object:' + key
            w = ck.sp(f'{MUL}::insert_obj')
            v, y = opt(I, st, rs[-1])
            if not ck.ob(v == 'Some', k, w, 'an inserted file is not found'):
                continue
            v0, y0 = opt(I, st, rs[-2])
            ck.ob((v0 == 'Some') == (key == 'replaced') and v0 in ('Some', 'None'), k + ':old', w, f'insert_obj gives {rs[-2]!r}')
            for z, nm, c, ty in [(y, N, C, TY)] + ([(y0, N2, C2, A('other'))] if key == 'replaced' and v0 == 'Some' else []):
                st.store[('X', 'file')] = z
                got = {f: [deep(I, s, r) for s, r in I.entry(ck.fn(f'{FH}::{f}'), [T('ref', ('X', 'file'), ())], st.copy())] for f in ('filename', 'content', 'size')}
                n += 3
                ck.ob(got == {'filename': [nm], 'content': [c], 'size': [seg.length(c)]}, k, w, f'a file of name {nm!r} and content {c!r} is read as {got!r}')
                ck.ob(fld(z, 'content_type') is ty, k + ':type', w, f'the file has the type {fld(z, "content_type")!r}')
    ck.floor('questions to files', n, 500)


PROPS = {'P67': [p67_values, p67_files]}
