"""Episodes for compression (P17)."""
BPP = {0: 1, 1: 2, 2: 4, 3: 3, 4: 6, 9: 4}
def op(r):
    o = r.choice(['rt', 'rt', 'rt', 'mm', 'mm', 'mm', 'jm'])
    pt = r.choice([0, 1, 2, 3, 4, 1, 4])
    w, h = r.randrange(1, 18), r.randrange(1, 12)
    if r.random() < .2: w, h = r.choice([(1, 1), (1, 9), (33, 1), (2, 2), (16, 16), (17, 3)])
    s = r.randrange(100); hm = r.choice([-1, 0, 1])
    if o == 'rt':
        k = dict(o=o, w=w, h=h, pt=pt, s=s, sch=r.choice([0, 1, 5, 5, 6, 6, 6]), pad=r.choice([0, 0, 1, 2, 3, 7, 16, 64]), tight=r.random() < .5, hm=hm)
        if k['sch'] in (5, 6):
            k['var'] = r.choice([0, 0, 1, 2, 3, 4])
            if r.random() < .5: k['lv'] = r.choice([-7, -1, 0, 1, 2, 3, 5, 9, 15, 19, 22, 100, -1000000, 2147483647, -2147483648])
            if r.random() < .6: k['hl'] = r.random() < .75
            if r.random() < .1: k['emptymap'] = True
            if r.random() < .08: k['pt'] = 9; k['pad'] = 0
        if k['sch'] == 1 and r.random() < .4: k['qu'] = r.choice([1000, 1000, 1001, 5000, 900, 500])
        if r.random() < .3: k['rnd'] = r.randrange(1, 10 ** 6); k['w'], k['h'] = r.randrange(1, 140), r.randrange(1, 60)
        return k
    if o == 'mm':
        sch = r.choice([0, 5, 6, 6, 6]); need = w * h * BPP[pt]
        if need > 300: w, h = min(w, 7), min(h, 6); need = w * h * BPP[pt]
        n = r.choice([need, need - 1, need + 1, need // 2, need - BPP[pt], need + BPP[pt], need + w * BPP[pt], max(2, need - w * BPP[pt]), need * 2, 1, 2, r.randrange(1, 2 * need + 2)])
        n = max(1, n)
        k = dict(o=o, w=w, h=h, pt=pt, s=s, sch=sch, n=n, hm=hm)
        if sch == 6:
            k['hdr'] = r.choice([[1], [3, 1, 0], [3, 1, 1], [3, 1, 1], [3, 1, 1], [3, 1, 255], [3, 1, 2]])
            if r.random() < .1: k['hdr'] = r.choice([[2], [0], [3, 2, 1], [4, 1, 1], [129, 0], []])
        return k
    return dict(o=o, w=w, h=h, pt=pt, pt1=pt if r.random() < .9 else r.choice([0, 1, 3, 4]), w1=max(1, w + r.choice([0, 0, -1, 1, -3, 5])), h1=max(1, h + r.choice([0, 0, -1, 1, -3, 5])), s=s, hm=hm)
def script(r):
    return dict(fam='codec', ops=[op(r) for _ in range(6)])
