"""Episodes for the composition family (P11-P14)."""
def doc(r, prop):
    F = r.choice([2, 2, 2, 3]); hasC = r.random() < .7; nc = r.choice([1, 2]) if hasC else 1
    scenes = r.choice([0, 0, 0, 1, 2, 3]); z = r.random() < .2
    pts = [r.choice([0, 1, 3, 4, 2, 0, 1]) for _ in range(nc)]
    ox, oy = r.choice([(0, 0), (0, 0), (-7, 5), (100, -50), (-3, -3)]) if r.random() < .88 else r.choice([(70000, -33000), (16777217, -16777219), (-20000001, 20000003), (65530, 32760)])
    sb = r.choice([0, 0, 0, 0, 7, 300]); mf = r.choice([1, 1, 1, 1, 255, 70001, 60000001])
    ts = []; used = set(); s = r.randrange(200); mall = r.random() < .75
    span = r.choice([8, 14, 24])
    def add(f):
        nonlocal s
        c = []
        if z: c.append(['Z', r.randrange(2)])
        ch = r.randrange(nc)
        if hasC: c.append(['C', ch])
        if scenes: c.append(['S', sb + r.randrange(scenes)])
        pw, ph = r.randrange(1, 13), r.randrange(1, 13)
        if prop == 'P14' and f == 1 and r.random() < .2: pw, ph = r.randrange(8, 34), r.randrange(8, 34)
        if r.random() < .15: pw = r.choice([1, 2, 16, 17])
        wm = f == 1 and r.random() < .12
        if wm: pw = r.randrange(14, 30)
        x, y = ox + r.randrange(-4, span), oy + r.randrange(-4, span)
        if f > 1 and r.random() < .6: x, y = x // f * f, y // f * f
        if r.random() < .2: x, y = ox, oy
        hm = mall if r.random() < .9 else not mall
        m = mf * r.randrange(0, 30) if hm else 0
        if f > 1: hm = r.random() < .2 and hm; m = m if hm else 0
        k = (str(c), f, hm, m if hm else (x, y))
        if k in used: return
        used.add(k); s += r.choice([1, 3, 17])
        pt = pts[ch] if r.random() < .93 else r.choice([0, 1, 3, 4])
        cmp = r.choice([0, 0, 0, 5, 6])
        t = dict(c=c, hm=hm, m=m, x=x, y=y, w=pw * f, h=ph * f, pw=pw, ph=ph, pt=pt, cmp=cmp, hl=r.random() < .5, s=s % 1000, hk=False)
        if wm or r.random() < .2:
            t.update(hk=True, mw=max(1, pw + r.choice([0, 0, 0, -1, 1, -3])), mh=max(1, ph + r.choice([0, 0, 0, -1, 2])), ms=r.choice([-1, -2, r.randrange(5), r.randrange(5), r.randrange(5)]), mpad=r.choice([0, 0, 1, 3]))
        ts.append(t)
    dense = prop == 'P14' and r.random() < .4
    if dense: span = 6; scenes = r.choice([0, 0, 1]); mall = True
    for _ in range(r.choice([12, 20, 35]) if dense else r.choice([1, 2, 3, 4, 6, 9])): add(1)
    while not ts: add(1)
    if prop in ('P12', 'P13', 'P14') or r.random() < .3:
        for f in (F, F * F):
            for _ in range(r.choice([0, 1, 2, 3])): add(f)
    if prop in ('P12', 'P13') and r.random() < .15:
        g = 5 - F
        for _ in range(2): add(g)
    r.shuffle(ts)
    return dict(fam='comp', dfr=r.choice([1, 1, 2, 3]), tiles=ts), dict(F=F, hasC=hasC, nc=nc, scenes=scenes, z=z, pts=pts, ox=ox, oy=oy, span=span, sb=sb)

def call(r, d, g, kind, prop):
    c = []
    if g['z'] and r.random() < .97: c.append(['Z', r.randrange(2)])
    if g['hasC'] and r.random() < .95: c.append(['C', r.randrange(g['nc'])])
    k = dict(kind=kind, c=c, fr=r.choice([1, 2, 2, 2, 3]))
    t = r.choice(d['tiles'])
    if r.random() < .03: c.append(['T', 0])
    if r.random() < .02: c.append(['S', 0])
    l0 = [q for q in d['tiles'] if q['w'] == q['pw'] and q['h'] == q['ph']]
    x0, y0 = (min(q['x'] for q in l0), min(q['y'] for q in l0)) if l0 else (0, 0)
    eff = d['dfr'] if k['fr'] == 1 else k['fr']
    x, y = t['x'] + r.randrange(-6, 7), t['y'] + r.randrange(-6, 7)
    if r.random() < .2: x, y = t['x'], t['y']
    pl = r.random() < .3
    if eff == 3 and not (k['fr'] == 1 and pl): x -= x0; y -= y0
    w, h = r.randrange(1, 15), r.randrange(1, 15)
    if t['pw'] > 12 and r.random() < .5: x += r.randrange(t['pw'])
    if r.random() < .03: x += 1000
    own = r.random() < .35
    dpt = r.choice([-1, -1, -1, 0, 1, 3, 4, 2]) if not own else r.choice(g['pts'] + [0, 1, 3, 4, 2])
    if r.random() < .02 and not own: dpt = 9
    k.update(dpt=dpt, own=own)
    if kind == 'p':
        F = g['F'] if r.random() < .93 else 5 - g['F']
        l = r.choice([0, 1, 1, 2, 2, 3]); sc = F ** l
        k.update(f=F, l=l)
        if own: k.update(ow=w, oh=h); k['roi'] = [x, y, w, h]
        else:
            k['roi'] = [x, y, w * sc + r.randrange(sc), h * sc + r.randrange(sc)]
            if r.random() < .03: k['roi'][2] = sc - 1
    elif kind == 's':
        zn = r.choice([64, 64, 32, 16, 8, 21, 22, 7, 33, 31, 30, 48, 63, 61, 20, 10, 5, 4] + [r.randrange(3, 64)] * 6)
        mx = 14 * 64 // zn
        rw, rh = r.randrange(max(1, mx // 4), mx + 1), r.randrange(max(1, mx // 4), mx + 1)
        if r.random() < .3: x, y = x - rw // 2, y - rh // 2
        k.update(zn=zn); k['roi'] = [x, y, rw, rh]
        if own:
            k.update(ow=rw * zn // 64, oh=rh * zn // 64)
            if r.random() < .05: k['ow'] += 1
            if k['ow'] == 0 or k['oh'] == 0: own = k['own'] = False; k['dpt'] = -1
    else:
        if prop == 'P14' and r.random() < .3: w, h, x, y = r.randrange(12, 36), r.randrange(12, 30), x - r.randrange(8), y - r.randrange(8)
        k['roi'] = [x, y, w, h]
        if own: k.update(ow=w, oh=h)
    if k['own']: k.update(pad=r.choice([0, 0, 1, 3, 8]), tight=r.random() < .5, pre=r.choice([0, 7, 99, 250]))
    if r.random() < .75 or (prop in ('P14', 'P13', 'P12') and not k['own']): k['bg'] = r.choice([[0, 0, 0], [1, 1, 1], [0, 1, 0], [1, 0, 0], [1, 1, 0], [0, 0, 1]])
    if r.random() < .85: k['srt'] = r.random() < .9
    if g['scenes'] and r.random() < .35: k['sf'] = sorted(g['sb'] + q for q in r.sample(range(g['scenes'] + 1), r.randrange(1, g['scenes'] + 1)))
    elif r.random() < .02: k['sf'] = [0]
    if r.random() < .35: k['mask'] = True
    if pl: k['plain'] = True
    if r.random() < .04 and prop != 'P14': k['nop'] = True; k.pop('bg', None)
    return k

def almost(r):
    """a wide image of which all but a sliver is covered by tiles on top: the lowest tile shows only there"""
    W, H = r.randrange(60, 260), r.randrange(2, 5); s = r.randrange(500); pt = r.choice([0, 0, 1, 3])
    T = lambda m, x, y, w, h: dict(c=[['C', 0]], hm=True, m=m, x=x, y=y, w=w, h=h, pw=w, ph=h, pt=pt, cmp=r.choice([0, 5, 6]), hl=r.random() < .5, s=(s + 7 * m) % 1000, hk=False)
    g = r.randrange(1, W); gw = r.choice([1, 1, 2, 3]); row = r.random() < .5 and H > 1
    ts = [T(0, -2, -1, W + 4, H + 2)] if r.random() < .6 else [T(0, min(g, W - gw), 0, gw + 3, H)]
    parts = [(0, g), (g, W - g)] if row else [(0, g), (min(W, g + gw), max(0, W - g - gw))]
    m = 1
    for a, w in parts:
        if w > 0: ts.append(T(m, a, 0, w, H - 1 if row and m == 2 else H)); m += 1
    for _ in range(r.randrange(3)): ts.append(T(m, r.randrange(W), r.randrange(H), r.randrange(1, 20), r.randrange(1, 3))); m += 1
    r.shuffle(ts)
    return dict(fam='comp', dfr=1, tiles=ts), [dict(kind=r.choice('tts'), c=[['C', 0]], fr=2, roi=[0, 0, W, H], dpt=r.choice([-1, 0]), own=False, srt=True, vis=True, cmp2=True, zn=64, bg=r.choice([[0, 0, 0], [1, 0, 1]])) for _ in range(2)]

def script(r, prop):
    if prop == 'P14' and r.random() < .06:
        d, cs = almost(r); d['calls'] = cs
        return d
    d, g = doc(r, prop); calls = []
    kinds = dict(P11='t', P12='p', P13='s')
    for _ in range(r.choice([3, 5, 8])):
        kd = kinds.get(prop) or r.choice('tps')
        k = call(r, d, g, kd, prop)
        if prop == 'P11' and r.random() < .15:
            k.update(kind='x', seq=[r.randrange(len(d['tiles'])) for _ in range(r.choice([0, 1, 2, 3, 5]))], own=True, pad=r.choice([0, 0, 1, 3, 8]), tight=r.random() < .5, pre=r.choice([0, 7, 99, 250]), ow=k['roi'][2], oh=k['roi'][3], fr=2)
            if k['dpt'] < 0 or k['dpt'] == 9: k['dpt'] = r.choice(g['pts'])
            for q in ('bg', 'sf', 'srt', 'plain'): k.pop(q, None)
            t = d['tiles'][k['seq'][0]] if k['seq'] else d['tiles'][0]; k['roi'][:2] = [t['x'] + r.randrange(-4, 5), t['y'] + r.randrange(-4, 5)]
        if prop == 'P11' and r.random() < .15: k['brd'] = not k.get('nop', False)
        if prop == 'P14':
            k['cmp2'] = True
            if r.random() < .65: k['cache'] = r.choice([0, 0, 1]); k['only'] = r.random() < .5
            if r.random() < .6 and kd != 'p': k['vis'] = True; k['srt'] = True if r.random() < .9 else k.get('srt', True)
            if r.random() < .25: calls.append(dict(op='prune', cache=r.choice([0, 1]), **r.choice([dict(cnt=0), dict(cnt=1), dict(cnt=2), dict(mem=100), dict(mem=300, cnt=3)])))
        calls.append(k)
        if prop == 'P14' and r.random() < .5: calls.append(dict(k)); calls[-1].update(roi=[k['roi'][0] + 1] + k['roi'][1:])
    d['calls'] = calls
    return d
