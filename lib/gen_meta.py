"""Sequences of edits of a metadata document (P21). A small tree is kept only to know which handles are alive."""
C = lambda s: [ord(x) for x in s]
NAMES = ['A', 'B', 'C', 'Ab', 'Ärz', 'x_1', 'a']
KEYS = ['Id', 'Name', 'k', 'Ident']
VALS = ['0', '1', 'ab', '', 'x y', 'Über', '1=2', 'Id']
TEXT = ['', ' ', 'hello', ' padded ', '<&>"\'', 'Ünïcode €', 'a\nb', '0', '1', '-1', '42', '+7', ' 12 ', '007', '2147483647', '2147483648', '-2147483648', '-2147483649', '4294967295', '4294967296', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '18446744073709551615', '18446744073709551616', '-18446744073709551615', '1.5', '-.25', '1e3', '12x', 'x12', '1 2', '12 x', 'true', 'FALSE', 'Yes', 'no', ' true ', 'tru', '1.', '.', '-', '3\n', '\t8', '5ä', 'é', '12.5 ', '--1', '00', '-0', '10 \u2003z']
BADP = ['', '/A', 'A/', 'A//B', 'A[', 'A]', 'A[Id]', 'A[=x]', 'A[]', '[0]', 'A[Id=1]x', 'A[Id=1][k=2]', 'A/B[', 'New/Z[Id', 'New1/New2/[1]', 'New/A[Id=1,k]', 'A[Id=1,,k=2]', 'A[Id=1;]', '/', 'New//', 'New/A]']
BADG = ['A[0]', 'New/A[0]', 'B/C[1]', 'New[Id=1]/B[2]']
class N:
    def __init__(s, n): s.n = n; s.a = {}; s.c = []; s.alive = True
    def el(s): return [x for x in s.c if isinstance(x, N)]
def kill(n):
    n.alive = False
    for c in n.el(): kill(c)
def tree(r, d):
    t = dict(n=r.choice(NAMES), a=[[k, r.choice(VALS)] for k in r.sample(KEYS, r.choice([0, 0, 1, 2]))], c=[])
    for _ in range(r.choice([0, 0, 1, 2, 3]) if d else 0):
        if r.random() < .3 and not (t['c'] and 't' in t['c'][-1]): t['c'].append(dict(t=C(r.choice([x for x in TEXT if x.strip()]))))
        else: t['c'].append(tree(r, d - 1))
    if not t['c'] and r.random() < .5: t['c'].append(dict(t=C(r.choice([x for x in TEXT if x.strip()]))))
    return t
def build(t):
    n = N(t['n']); n.a = dict(map(tuple, t['a'])); n.c = [None if 't' in x else build(x) for x in t['c']]; return n
def step(n, t):
    l = [x for x in n.el() if x.n == t['n']]
    if 'i' in t: return l[t['i']] if t['i'] < len(l) else None
    l = [x for x in l if all(x.a.get(k) == v for k, v in t.get('at', []))]
    return l[0] if l else None
def path(r, n, idx):
    p = []
    for _ in range(r.choice([1, 1, 2, 3])):
        t = dict(n=r.choice([x.n for x in n.el()]) if n and n.el() and r.random() < .6 else r.choice(NAMES))
        k = r.random()
        if k < .3: t['at'] = [[a, r.choice(VALS)] for a in r.sample(KEYS, r.choice([1, 1, 2]))]; t['sep'] = r.choice([',', ';'])
        elif k < .5 and idx: t['i'] = r.choice([0, 0, 1, 1, 2, 7]); t['ws'] = r.choice(['', '', ' '])
        if 'at' in t and n and r.random() < .5:
            m = [x for x in n.el() if x.n == t['n'] and x.a]
            if m: x = r.choice(m); ks = r.sample(sorted(x.a), r.choice([1, len(x.a)])); t['at'] = [[q, x.a[q]] for q in ks if not any(z in x.a[q] for z in ',;[]/')] or t['at']
        p.append(t); n = step(n, t) if n else None
    return p
def script(r, nops):
    s = dict(fam='xml', ops=[])
    root = N('ImageDocument')
    if r.random() < .5:
        if r.random() < .15:
            s['tags'] = [dict(n=r.choice(NAMES + ['StageXPosition']), v=C(r.choice(TEXT))) for _ in range(r.choice([0, 1, 3, 6]))]; root = N('METADATA')
            if s['tags']: tg = N('Tags'); root.c.append(tg)
            for t in s['tags']:
                if not [x for x in tg.el() if x.n == t['n']]: m = N(t['n']); m.c = [None]; tg.c.append(m)
        else:
         t = tree(r, 3); t['n'] = 'ImageDocument'; s['init'] = t; root = build(t)
    h = {0: root}; nxt = 1
    def add(**k): s['ops'].append(k)
    while len(s['ops']) < nops:
        live = [k for k, n in h.items() if n and n.alive]
        k = r.choice(live[-6:]) if r.random() < .6 else r.choice(live); n = h[k]
        x = r.random(); nh = nxt if nxt < 60 else r.choice([q for q in h if q] or [1])
        if x < .22:
            if r.random() < .1: add(o='goc', h=k, raw=r.choice(BADP + BADG), nh=nh, w=r.random() < .3); m = None
            else:
                p = path(r, n, False); add(o='goc', h=k, p=p, nh=nh, w=r.random() < .3); m = n
                for t in p:
                    q = step(m, t)
                    if not q: q = N(t['n']); q.a = {a: b for a, b in t.get('at', [])}; m.c.append(q)
                    m = q
            h[nh] = m; nxt += 1
        elif x < .34:
            if r.random() < .1: add(o='get', h=k, raw=r.choice(BADP), nh=nh); m = None
            else:
                p = path(r, n, True); add(o='get', h=k, p=p, nh=nh); m = n
                for t in p: m = m and step(m, t)
            h[nh] = m; nxt += 1
        elif x < .42: add(o='ro', h=k, **(dict(raw=r.choice(BADP)) if r.random() < .1 else dict(p=path(r, n, True))))
        elif x < .52:
            m = N(r.choice(NAMES)); n.c.append(m); add(o='app', h=k, nm=m.n, nh=nh); h[nh] = m; nxt += 1
        elif x < .62:
            a, v = r.choice(KEYS), r.choice(VALS + ['<&>"\'', 'a\nb', '\tq']); n.a[a] = v; add(o='sa', h=k, k=a, v=v, w=r.random() < .4)
        elif x < .72: 
            if r.random() < .3: ty = r.choice(['i32', 'u32', 'i64', 'u64']); add(o='si', h=k, ty=ty, v=C(str(r.choice({'i32': [0, -1, 2**31 - 1, -2**31, 77], 'u32': [0, 5, 2**32 - 1, 2**31], 'i64': [0, -1, 2**63 - 1, -2**63], 'u64': [0, 2**64 - 1, 2**63]}[ty]))))
            elif r.random() < .2: add(o='sb', h=k, b=r.random() < .5)
            elif r.random() < .3: add(o='sd', h=k, v=r.choice([0, 1000, -2500, 125, 123456, r.randrange(-99999, 99999)]), flt=r.random() < .5)
            else: add(o='sv', h=k, v=C(r.choice(TEXT)), w=r.random() < .5)
            if not n.el(): n.c = [None]
        elif x < .80: add(o='tv', h=k)
        elif x < .83:
            for q in n.el(): kill(q)
            n.c = []; add(o='rc', h=k)
        elif x < .85: n.a = {}; add(o='ra', h=k)
        elif x < .90:
            nm = r.choice([q.n for q in n.el()] or NAMES) if r.random() < .7 else r.choice(NAMES); l = [q for q in n.el() if q.n == nm]
            if l: kill(l[0]); n.c = [q for q in n.c if q is not l[0]]
            add(o='rmc', h=k, nm=nm)
        elif x < .94: a = r.choice(KEYS); n.a.pop(a, None); add(o='rma', h=k, nm=a)
        elif x < .97: add(o='view', ind=r.random() < .5, **(dict(raw=r.choice(BADP[2:])) if r.random() < .1 else dict(p=path(r, root, True))), **(dict(cut=True) if r.random() < .15 else {}))
        else: add(o='xml', ind=r.random() < .5)
    add(o='xml', ind=r.random() < .5)
    return s
