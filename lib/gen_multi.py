"""Multi-channel compositions (P20)."""
NC = {0: 1, 1: 1, 2: 1, 3: 3, 4: 3, 9: 4}
def chan(r, w, h, clean):
    pt = r.choice([0, 0, 1, 1, 3, 4, 9] if clean else [0, 1, 3, 4, 9, 2])
    mx = 65535 if pt in (1, 4) else 255
    c = dict(pt=pt, w=w, h=h, pad=r.choice([0, 0, 1, 2, 7]) * (2 if pt in (1, 4, 2) else 1) * (2 if pt == 2 else 1), tight=r.random() < .5)
    n = NC[pt] * w * h
    hi = r.choice([mx, mx, mx // 3, 40])
    c['px'] = [r.choice([0, mx, mx // 2, 1, mx - 1]) if r.random() < .25 else r.randrange(hi + 1) for _ in range(n)]
    c['wt'] = r.choice([4, 4, 4, 4, 0, 1, 2, 3, 8, 12, 40, -4])
    if r.random() < .02: c['nan'] = True
    c['tint'] = r.random() < .5
    c['col'] = [r.choice([0, 255, 128, 1, r.randrange(256), r.randrange(256)]) for _ in range(3)]
    k = r.random()
    c['bp'], c['wp'] = (0, 256) if k < .4 else (r.randrange(0, 257), r.randrange(0, 257)) if k < .5 else (0, r.choice([0, 64, 128, 255, 300])) if k < .6 else (r.choice([-40, 0, 5, 60, 255, 256]), r.choice([256, 300, 200])) if k < .75 else (lambda a: (a, min(256, a + r.randrange(1, 150))))(r.randrange(0, 255))
    if pt == 9 and clean: c['bp'], c['wp'] = 0, 256
    if r.random() < .25 and (pt != 9 or not clean):
        c['lut'] = [r.randrange(256), r.randrange(256), r.randrange(5)]
        if r.random() < .3: c['lut'] = [1, 0, 0]
        if mx == 65535: c['lut'] = [r.choice([0, 1, 3]), r.randrange(256), r.randrange(1, 8)]
        c['ln'] = mx + 1
        if not clean and r.random() < .3: c['ln'] = r.choice([1, 255, 257, 65535, 256])
        if not clean and r.random() < .1: c['nolut'] = True
    return c
def op(r):
    clean = r.random() < .85
    w, h = r.choice([(1, 1), (r.randrange(1, 7), r.randrange(1, 4)), (r.randrange(1, 7), r.randrange(1, 4))])
    n = r.choice([1, 1, 2, 2, 3, 4])
    ch = [chan(r, w, h, clean) for _ in range(n)]
    if r.random() < .45:
        for c in ch: c['wt'] = 4; c.pop('nan', None)
    k = dict(fn=r.choice([0, 0, 1, 2]), n=n, rgba=r.random() < .5, alpha=r.choice([0, 255, 128, r.randrange(256)]), w=w, h=h, pad=r.choice([0, 1, 5]), tight=r.random() < .5, ch=ch)
    k['dpt'] = 9 if k['rgba'] else 3
    if not clean:
        x = r.random()
        if x < .15: k['dpt'] = r.choice([0, 3, 9, 4])
        elif x < .3: k['w'] += 1
        elif x < .4 and n > 1:
            q = chan(r, w + 1, h, True); ch[r.randrange(1, n)] = q
        elif x < .45 and k['fn'] == 0: k['n'] = r.choice([0, -1])
        elif x < .55 and k['fn'] == 0: ch[r.randrange(n)]['nobm'] = True
    return k
def script(r): return dict(fam='multi', ops=[op(r) for _ in range(8)])
