"""Names are not behaviour: private functions, types, fields and parameters that were renamed or moved are given back the names under which the
rules know them, when type and place (or what they call) leave no doubt which is which. spec/names.json lists the known names.
`python3 engine/names.py` rewrites that list from /repo."""
import json, os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(os.path.dirname(HERE), 'spec', 'names.json')


def ty(raw, i):
    return raw['types'][i]['s']


def sig(raw, f):
    ls = f['locals']
    return [ty(raw, l[0]) for l in ls[:f['args'] + 1]]


def params(f):
    return [l[1] for l in f['locals'][1:f['args'] + 1]]


def calls(f):
    out = set()
    for b in f['blocks']:
        t = b['t']
        if t and t.get('k') == 'call' and isinstance(t.get('f'), dict) and t['f'].get('k') == 'fn':
            out.add(t['f'].get('path', ''))
    return sorted(out)


def plain(n):
    return '{' not in n


def summary(raw):
    fns = {n: dict(sig=sig(raw, f), params=params(f), calls=calls(f), kind=f['kind'], trait=bool(f.get('trait'))) for n, f in raw['fns'].items() if plain(n) and 'locals' in f}
    adts = {n: dict(kind=a['kind'], v=[dict(n=v['n'], f=[[x['n'], ty(raw, x['ty'])] for x in v['f']]) for v in a['v']]) for n, a in raw['adts'].items() if a['local']}
    return dict(fns=fns, adts=adts)


def replace(text, ren):
    if not ren:
        return text
    rx = re.compile(r'(?<![\w:])(' + '|'.join(sorted(map(re.escape, ren), key=len, reverse=True)) + r')(?!\w)')
    return rx.sub(lambda m: ren[m[1]], text)


def last(n):
    return n.rsplit('::', 1)


def norm(s, own):
    """A type text without the paths of the crate's own types (these may have moved) and without lifetimes"""
    return re.sub(r"'\w+ ?", '', re.sub(r'(?<![\w:])' + own, '', s)) if own else s


def match(old, new, score):
    """Pairs (old, new) that are each other's clear best."""
    out = {}
    table = {o: sorted(((score(o, n), n) for n in new), reverse=True) for o in old}
    for o, c in table.items():
        if not c or c[0][0] <= 0 or len(c) > 1 and c[1][0] == c[0][0]:
            continue
        n = c[0][1]
        rivals = sorted(((score(o2, n), o2) for o2 in old), reverse=True)
        if rivals[0][1] == o and (len(rivals) == 1 or rivals[1][0] < rivals[0][0]):
            out[n] = o
    return out


def jac(a, b):
    a, b = set(a), set(b)
    return len(a & b) / len(a | b) if a | b else 1.0


def apply(raw):
    """raw dump -> raw dump under the known names; what was renamed"""
    if not os.path.exists(FILE):
        return raw, []
    base = json.load(open(FILE))
    notes = []
    # types
    now = summary(raw)
    gone = [n for n in base['adts'] if n not in now['adts']]
    come = [n for n in now['adts'] if n not in base['adts']]

    def ascore(o, n):
        a, b = base['adts'][o], now['adts'][n]
        if a['kind'] != b['kind'] or len(a['v']) != len(b['v']):
            return 0
        sw = lambda s: re.sub(r'(?<![\w:])' + re.escape(n) + r'(?!\w)', o, s)
        fa = [(x[0], x[1]) for v in a['v'] for x in v['f']] + [v['n'] for v in a['v'] if a['kind'] == 'enum']
        fb = [(x[0], sw(x[1])) for v in b['v'] for x in v['f']] + [v['n'] for v in b['v'] if a['kind'] == 'enum']
        s = jac(fa, fb)
        return (s if s > 0.6 else 0) + (0.5 if last(o)[-1] == last(n)[-1] else 0) + (0.1 if last(o)[0] == last(n)[0] else 0) if s > 0.6 else 0
    ren = match(gone, come, ascore)
    if ren:
        raw = json.loads(replace(json.dumps(raw), ren))
        notes += [f'type {n} is {o}' for n, o in ren.items()]
        now = summary(raw)
    # fields
    fren = {}
    for n, a in base['adts'].items():
        b = now['adts'].get(n)
        if not b or len(a['v']) != len(b['v']):
            continue
        for i, (va, vb) in enumerate(zip(a['v'], b['v'])):
            fa, fb = va['f'], vb['f']
            g = [x for x in fa if x[0] not in {y[0] for y in fb}]
            c = [y for y in fb if y[0] not in {x[0] for x in fa}]
            if not g or len(fa) != len(fb):
                continue
            m = {}
            for y in c:
                k = [x for x in g if x[1] == y[1] and x[0] not in m.values()]
                same = [x for x in k if fa.index(x) == fb.index(y)]
                if len(k) == 1 or len(same) == 1:
                    m[y[0]] = (same or k)[0][0]
            for new, old in m.items():
                fren[n, new] = old
                notes.append(f'field {n}.{new} is {old}')
                for x in raw['adts'][n]['v'][i]['f']:
                    if x['n'] == new:
                        x['n'] = old
    if fren:
        def walk(x):
            if isinstance(x, list):
                if len(x) == 5 and x[0] == 'f' and isinstance(x[2], str) and (x[4], x[2]) in fren:
                    x[2] = fren[x[4], x[2]]
                    return
                for y in x:
                    walk(y)
            elif isinstance(x, dict):
                if isinstance(x.get('fields'), list) and 'adt' in x:
                    x['fields'] = [fren.get((x['adt'], y), y) for y in x['fields']]
                for y in x.values():
                    walk(y)
        walk(raw['fns'])
    # functions
    gone = [n for n in base['fns'] if n not in now['fns']]
    come = [n for n in now['fns'] if n not in base['fns']]

    def fscore(o, n):
        a, b = base['fns'][o], now['fns'][n]
        if a['kind'] != b['kind'] and {a['kind'], b['kind']} != {'Fn', 'AssocFn'} or len(a['sig']) != len(b['sig']) or a['trait'] or b['trait']:
            return 0
        if a['sig'] != b['sig'] and sorted(a['sig'][1:]) + a['sig'][:1] != sorted(b['sig'][1:]) + b['sig'][:1]:
            return 0
        s = jac(a['calls'], b['calls'])
        nm = last(o)[-1] == last(n)[-1]
        place = last(o)[0] == last(n)[0]
        if not nm and s < 0.3:
            return 0
        return s + (1 if nm else 0) + (0.5 if place else 0)
    ren = match(gone, come, fscore)
    if ren:
        raw = json.loads(replace(json.dumps(raw), ren))
        notes += [f'function {n} is {o}' for n, o in ren.items()]
        now = summary(raw)
    # parameters
    for n, a in base['fns'].items():
        b = now['fns'].get(n)
        if not b or len(a['params']) != len(b['params']) or a['params'] == b['params'] or a['sig'] != b['sig']:
            continue
        for i, (x, y) in enumerate(zip(a['params'], b['params'])):
            if x != y and x and x not in b['params'] and y not in a['params']:
                raw['fns'][n]['locals'][i + 1][1] = x
                notes.append(f'parameter {y} of {n} is {x}')
    return raw, notes


if __name__ == '__main__':
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    import dump
    raw = json.load(open(dump.build()))
    json.dump(summary(raw), open(FILE, 'w'), indent=0, sort_keys=True, ensure_ascii=False)
    open(FILE, 'a').write('\n')
    print(len(summary(raw)['fns']), 'functions')
