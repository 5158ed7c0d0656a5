"""Episodes for bitmap operations (P19)."""
PT = [0, 1, 2, 3, 4, 9]
def bm(r, pt=None, big=12):
    return dict(pt=pt if pt is not None else r.choice(PT), w=r.randrange(1, big), h=r.randrange(1, max(2, big * 2 // 3)), pad=r.choice([0, 0, 1, 2, 3, 5, 8]), tight=r.random() < .5, s=r.randrange(200))
def bitmap(r):
    w = r.choice([r.randrange(1, 20), r.randrange(20, 80), 8, 16, 32, 33, 64, 7, 9, 31])
    return dict(w=w, h=r.randrange(1, 14), pad=r.choice([0, 0, 1, 2, 3]), ms=r.choice([-1, -2, -1, r.randrange(50), r.randrange(50)]))
def op(r, d, b):
    o = r.choice(['copyat', 'copyat', 'copyat', 'copyoff', 'fill', 'nn', 'nnroi', 'nnroi', 'bset', 'bset', 'bget', 'bfill', 'bfill', 'bfill', 'ball', 'bdec', 'bdec', 'md5'])
    if o in ('copyat', 'copyoff'):
        k = dict(o=o, src=bm(r), x=r.randrange(-12, d['w'] + 3), y=r.randrange(-8, d['h'] + 3))
        if r.random() < .3: k['x'], k['y'] = r.choice([0, -1, 1]), r.choice([0, -1, 1])
        if o == 'copyat':
            t = r.random()
            if t < .5: k['m'] = dict(w=max(1, k['src']['w'] + r.choice([0, 0, 0, -1, 1, -4, 9])), h=max(1, k['src']['h'] + r.choice([0, 0, 0, -1, 1, 3])), pad=r.choice([0, 0, 1, 3]), ms=r.choice([-1, -2, r.randrange(50), r.randrange(50), r.randrange(50)]))
            elif t < .75: k['cur'] = True
        if r.random() < .4: k['src']['pt'] = d['pt']
        return k
    if o == 'md5': return dict(o=o, src=bm(r)) if r.random() < .6 else dict(o=o, len=r.choice([0, 1, 54, 55, 56, 57, 63, 64, 65, 119, 120, 121, 128, 129, r.randrange(400)]), s=r.randrange(1 << 16))
    if o == 'fill': return dict(o=o, ut=r.random() < .4, bg=[r.choice([0, 1, 2, 3, 4, 5, -1, 8]) for _ in range(3)])
    if o == 'nn':
        k = dict(o=o, src=bm(r, d['pt'] if r.random() < .9 else None, 30))
        if r.random() < .7: k['src']['w'] = max(k['src']['w'], d['w']); k['src']['h'] = max(k['src']['h'], d['h'])
        if k['src']['pt'] == d['pt'] and k['src']['w'] >= d['w'] and k['src']['h'] >= d['h'] and r.random() < .4: k['ut'] = True
        return k
    if o == 'nnroi':
        sp = d['pt'] if r.random() < .4 else None
        s = bm(r, sp, 24)
        q = lambda lo, hi: r.randrange(lo, hi) * r.choice([1, 4])
        rs = [r.randrange(-8, 4 * s['w']), r.randrange(-8, 4 * s['h']), r.randrange(1, 4 * s['w'] + 9), r.randrange(1, 4 * s['h'] + 9)]
        rd = [r.randrange(-12, 4 * d['w']), r.randrange(-12, 4 * d['h']), r.randrange(1, 4 * d['w'] + 9), r.randrange(1, 4 * d['h'] + 9)]
        if r.random() < .4: rs = [0, 0, 4 * s['w'], 4 * s['h']]
        if r.random() < .3: rd = [4 * (v // 4) for v in rd[:2]] + [max(4, 4 * (v // 4)) for v in rd[2:]]
        return dict(o=o, src=s, rs=rs, rd=rd, **({'ut': True} if s['pt'] == d['pt'] and r.random() < .5 else {}))
    via = r.randrange(3)
    if o in ('bset', 'bget'):
        x, y = r.randrange(b['w']), r.randrange(b['h'])
        if r.random() < .1: x, y = r.choice([(b['w'], 0), (0, b['h']), (b['w'] + 1, y), (x, b['h'] + 5), (-1, 0), (0, -1)])
        return dict(o=o, x=x, y=y, v=r.random() < .5, via=via)
    if o == 'bfill':
        x, y = r.randrange(-10, b['w'] + 3), r.randrange(-4, b['h'] + 2)
        k = dict(o=o, x=x, y=y, w=r.randrange(0, b['w'] + 12), h=r.randrange(0, b['h'] + 6), v=r.random() < .5, via=via)
        if r.random() < .3: k['x'] = r.choice([0, 1, 7, 8, 9]); k['w'] = r.choice([1, 7, 8, 9, 15, 16, 17])
        if r.random() < .05: k.update(r.choice([dict(x=-2147483648, w=2147483647), dict(x=2147483647, w=2147483647), dict(x=-5, w=2147483647), dict(y=-3, h=2147483647), dict(y=2147483600, h=2147483600)]))
        return k
    if o == 'ball': return dict(o=o, v=r.random() < .7, via=via)
    k = dict(o='bdec', n=r.choice([0, 1, 2, 3, 4, 5, 6, 7, 1, 2]) if r.random() < .95 else r.choice([-1, 8]), via=r.randrange(2))
    return k
def script(r):
    d = bm(r); b = b0 = bitmap(r); ops = []
    for _ in range(r.randrange(6, 13)):
        k = op(r, d, b)
        if k['o'] == 'bdec' and 0 <= k['n'] <= 7 and b['w'] >= 4 and b['h'] >= 4 and r.random() < .3: k['keep'] = True
        ops.append(k)
        if k.get('keep'): b = dict(b, w=b['w'] // 2, h=b['h'] // 2)
    return dict(fam='bmp', d=d, bit=b0, ops=ops)
