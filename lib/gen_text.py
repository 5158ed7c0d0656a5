"""Texts and values for the parsers and formatters (P18): grammar-directed, then mutated."""
DC = 'ZCTRSIHVB'
INTS = ['0', '1', '7', '12', '005', '2147483647', '2147483648', '2147483646', '99999999999', '0000000000000000012', '02147483647', '00000000000000000000000002147483648', '4294967295', '18446744073709551617', '9223372036854775808', '123456']
def num(r): return r.choice(INTS) if r.random() < .45 else str(r.randrange(0, 300))
def sgn(r, p=.3): return r.choice(['+', '-', '-']) if r.random() < p else ''
def dimc(r): c = r.choice(DC); return c if r.random() < .7 else c.lower()
def dims(r, n): d = r.sample(DC, n); return [c if r.random() < .8 else c.lower() for c in d]
def mut(r, t, alpha):
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.random()
        p = r.randrange(len(t) + 1)
        if k < .35: t = t[:p] + r.choice(alpha) + t[p:]
        elif k < .6 and t: p = r.randrange(len(t)); t = t[:p] + t[p + 1:]
        elif k < .8 and t: p = r.randrange(len(t)); t = t[:p] + r.choice(alpha) + t[p + 1:]
        elif k < .9 and t: q = r.randrange(len(t)); t = t + t[min(p, q):max(p, q)]
        else: t = t[:p]
    return t[:60]
ANY = 'ZCTRSIHVBzct0123456789+-:;,= \t|xyXYM.#'
def ws(r): return r.choice(['', '', '', ' ', '\t', '  '])
def codes(t): return [ord(c) for c in t]
def coord(r):
    n = r.choice([0, 1, 1, 2, 3, 5, 9])
    sp = lambda: r.choice(['', '', ' ', ',', ';', ', ', '\t', ' ; '])
    t = sp() if r.random() < .2 else ''
    for c in dims(r, n): t += c + ws(r) * (r.random() < .2) + sgn(r) + ws(r) * (r.random() < .15) + num(r) + sp()
    if r.random() < .1 and n: t += t
    return t
def bounds(r):
    t = ''
    for c in dims(r, r.choice([1, 1, 2, 3, 4, 9])): t += c + sgn(r, .2) + num(r) + ':' + (sgn(r, .1) + num(r)) + r.choice(['', '', ' ', '  ', '\t', '\n'])
    return t
def lim(r):
    k = r.random()
    if k < .15: return sgn(r, .6) + ws(r) * (r.random() < .1) + 'inf'
    return sgn(r, .3) + ws(r) * (r.random() < .1) + (num(r) if r.random() < .4 else str(r.randrange(0, 25)))
def idx(r):
    ps = []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        k = r.random()
        if k < .35: p = lim(r)
        elif k < .8:
            a = r.randrange(-20, 20); b = a + r.randrange(0, 12) if r.random() < .9 else a - 1
            p = '%d%s-%s%d' % (a, ws(r) * (r.random() < .1), ws(r) * (r.random() < .1), b)
        else: p = lim(r) + '-' + lim(r)
        ps.append(ws(r) + p + ws(r))
    return ','.join(ps)
def caseflip(r, t): return ''.join(c.upper() if r.random() < .5 else c.lower() for c in t) if r.random() < .4 else t
def comp(r):
    m = caseflip(r, r.choice(['zstd0', 'zstd1', 'zstd1', 'uncompressed', 'jpgxr', 'jpg', 'zstd', 'zstd2', 'lzw', '']))
    ks = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
        k = r.random()
        if k < .45: ks.append(caseflip(r, 'ExplicitLevel') + ws(r) + '=' + ws(r) + sgn(r, .3) + (num(r) if r.random() < .3 else str(r.randrange(30))))
        elif k < .8: ks.append(caseflip(r, 'PreProcess') + ws(r) + '=' + ws(r) + caseflip(r, r.choice(['HiLoByteUnpack', 'HiLoByteUnpack', 'HiLoByteUnpack', 'None', 'HiLoByte', ''])))
        else: ks.append(r.choice(['Foo=bar', 'a=1.5', '=', 'x=', '=y', 'Level=3', 'ExplicitLevel2=x', 'ExplicitLeve=z']))
    t = ws(r) + m + ws(r) + ':' + ws(r) + (ws(r) + ';' + ws(r)).join(ks) + r.choice(['', '', '', ';', ' ', '; '])
    return t
def date(r):
    if r.random() < .35:                     # an otherwise plain text around the end of a month, above all of February in every kind of year
        y = r.choice([4, 100, 200, 400, 500, 800, 900, 1000, 1100, 1200, 1500, 1600, 1700, 1800, 2000, 2100, 2200, 2400, 3000, 4000, 5000, 8000, 2023, 2024, 1, 3, r.randrange(1, 10000)]); mo = r.choice([2, 2, 2, 2, r.randrange(1, 13)])
        return '%s%04d-%02d-%02dT%02d:%02d:%02d%s' % (r.choice(['', '', '', '-']), y, mo, r.choice([28, 29, 29, 29, 30, 31]), r.randrange(24), r.randrange(60), r.randrange(60), r.choice(['', 'Z', '+01:00']))
    y = r.choice(['2023', '1999', '0004', '-0044', '2024', '2000', '1900', '9999', '10000', '-9999', '-10000', '12345678901', '0000', '-0001', '0999'])
    t = '%s-%02d-%02dT%02d:%02d:%02d' % (y, r.choice([1, 2, 2, 4, 11, 12, 13, 0, r.randrange(1, 13)]), r.choice([1, 28, 29, 29, 30, 31, 32, 0, r.randrange(1, 29)]), r.choice([0, 23, 24, r.randrange(24)]), r.choice([0, 59, 60, r.randrange(60)]), r.choice([0, 59, 60, 60, 61, r.randrange(60)]))
    t += r.choice(['', '', '.5', '.1234567', '.', '.0'])
    t += r.choice(['', 'Z', '+01:00', '-05:30', '-00:30', '+14:00', '+24:00', '-23:59', '+05:60', '+1:00', '+0100', 'z', ' Z', '-12:00', '+00:00', '-01:05'])
    return ws(r) * (r.random() < .2) + t + ws(r) * (r.random() < .2)
def colour(r):
    h = '0123456789abcdefABCDEF'
    t = '#' + ''.join(r.choice(h) for _ in range(r.choice([8, 8, 8, 8, 7, 6, 9, 3, 10])))
    if r.random() < .25:
        p = r.randrange(1, len(t)); t = t[:p] + r.choice(['g', 'G', '\u0130', '\u4e00', '\u0661', '\uff11', ' ', '-', '\U0001F600', '@', '`', '/', ':']) + t[p + 1:]
    return ws(r) * (r.random() < .3) + t + ws(r) * (r.random() < .3)
VALS = [0, 1, -1, 5, 17, 2147483647, -2147483648, 2147483646, -2147483647, 1000000000, 999999999, -1000000000]
def val(r): return r.choice(VALS) if r.random() < .5 else r.randrange(-3000, 3000)
def co(r, n=None): return [[d, val(r)] for d in sorted(r.sample(range(1, 10), n if n is not None else r.randrange(0, 10)))]
def rnd(r, alpha): return ''.join(r.choice(alpha) for _ in range(r.choice([0, 1, 2, 3, 5, 9])))
def op(r):
    o = r.choice(['coord', 'coord', 'fcoord', 'bounds', 'bounds', 'fbounds', 'idx', 'idx', 'idx', 'comp', 'comp', 'mode', 'enum', 'cmp', 'date', 'date', 'fdate', 'colour'])
    g = dict(coord=(coord, ANY), bounds=(bounds, ANY), idx=(idx, '0123456789+-,inf  \t\nx'), comp=(comp, 'abExplicitLevl0123=;: .+-zstd"'), date=(date, '0123456789-:TZ+. '), colour=(colour, '0123456789abcdefABCDEF#g x')).get(o)
    if g:
        t = g[0](r) if r.random() < .95 else rnd(r, g[1])
        if r.random() < .45: t = mut(r, t, g[1])
        if o == 'idx' and r.random() < .03: p = r.randrange(len(t) + 1); t = t[:p] + r.choice('\u0661\uff11\u4e00') + t[p:]
        k = dict(o=o, t=codes(t))
        if o == 'idx':
            pr = list(range(-25, 35, r.choice([1, 1, 2, 3]))) + VALS
            k['pr'] = pr
        return k
    if o == 'fcoord': return dict(o=o, v=co(r))
    if o == 'fbounds': return dict(o=o, v=[[d, v, r.choice([1, 2, 5, 2147483647, 100, r.randrange(1, 5000)])] for d, v in co(r)])
    if o == 'mode': return dict(o=o, k=r.randrange(5))
    if o == 'enum':
        b = [[d, r.randrange(-5, 6), r.choice([1, 1, 2, 2, 3, 4])] for d in sorted(r.sample(range(1, 10), r.choice([0, 1, 2, 3, 3, 4])))]
        return dict(o=o, b=b, stop=r.choice([-1, -1, -1, 1, 2, 5, 12]))
    if o == 'cmp':
        a = co(r); b = [list(x) for x in a]
        for _ in range(r.choice([0, 1, 1, 2])):
            if b and r.random() < .5: b.pop(r.randrange(len(b)))
            elif b: x = r.choice(b); x[1] = val(r)
        if r.random() < .3: b = co(r)
        if r.random() < .5: a, b = b, a
        return dict(o=o, a=a, b=b)
    z = r.choice([0, 1, 2, 2])
    oh = r.choice([0, 1, -1, 5, -5, 14, -23, 23, 24, -24]); 
    return dict(o=o, v=[r.choice([2023, 1999, 4, -44, 0, 9999, -9999, 10000, -10000, 2000, 1900, r.randrange(-200, 3000)]), r.randrange(0, 14), r.choice([0, 1, 28, 29, 30, 31, 32]), r.choice([0, 23, 24, -1, r.randrange(24)]), r.choice([0, 59, 60, r.randrange(60)]), r.choice([0, 59, 60, 61, r.randrange(60)]), z, oh, r.choice([0, 30, 5, 59, 60, -1])])
def script(r): return dict(fam='text', ops=[op(r) for _ in range(12)])
