"""Subblock metadata and chunk containers (P22)."""
MASK = bytes([0x67, 0xEA, 0xE3, 0xCB, 0xFC, 0x5B, 0x2B, 0x49, 0xA1, 0x6A, 0xEC, 0xE3, 0x78, 0x03, 0x14, 0x48])
C = lambda s: [ord(x) for x in s]
def u32(v): return (v & 0xFFFFFFFF).to_bytes(4, 'little')
NAMES = ['A', 'B', 'StageXPosition', 'StageYPosition', 'StageXPositio', 'a', 'FocusPosition', 'Ärger', 'Tags', 'AcquisitionTime']
RAW = [('', False), ('<METADATA>', False), ('<A/>', True), ('<METADATA><Tags></METADATA>', False), ('no xml', False), ('<METADATA/>', True), ('<METADATA><Tags/></METADATA>', True), ('<METADATA><tags><A>1</A></tags></METADATA>', True), ('<METADATA><Tags><A>1</A></Tags></METADATA', False), ('<Root><METADATA><Tags><A>1</A></Tags></METADATA></Root>', True), ('   ', False)]
def num(r):
    k = r.random(); sgn = r.choice(['', '', '-', '+'])
    i = str(r.choice([0, 1, 7, 42, 999, r.randrange(10000)]))
    if k < .3: t = sgn + i
    elif k < .6: t = sgn + i + '.' + str(r.randrange(1000)).zfill(r.randrange(1, 4))[:3]
    elif k < .7: t = sgn + '.' + str(r.randrange(100))
    elif k < .75: t = sgn + i + '.'
    elif k < .85: t = sgn + str(r.randrange(100)) + r.choice(['e', 'E']) + r.choice(['', '+']) + str(r.randrange(2))
    elif k < .9: t = sgn + '00' + i
    else: t = r.choice(['', ' ', 'abc', i + 'x', '- ' + i, '--' + i, i + ' ' + i, i + 'e', i + ',5', '.', '+', 'e5', '1.2.3', 'A&B <c>', 'Überlänge', i + 'e+', '5ä', '5\u2003'])
    if r.random() < .15: t = r.choice([' ', '\n', '\t ']) + t
    if r.random() < .2: t = t + r.choice([' ', '\n', '  ', '\t'])
    return t
def chunk(r):
    g = MASK if r.random() < .45 else bytes(r.randrange(256) for _ in range(16)) if r.random() < .8 else MASK[:15] + bytes([MASK[15] ^ 1])
    if g == MASK:
        w, h = r.choice([(r.randrange(1, 20), r.randrange(1, 5)), (8, 2), (r.randrange(1, 20), r.randrange(1, 5)), (0, 3), (3, 0)])
        st = (w + 7) // 8 + r.choice([0, 0, 1, 3])
        d = bytes(r.randrange(256) for _ in range(st * h))
        if r.random() < .3 and h: d = d[:(h - 1) * st + (w + 7) // 8]
        k = r.random()
        if k < .1: d = d[:-1]
        elif k < .15: d += b'\x55\xaa'
        elif k < .2: st = max(0, st - r.choice([1, 2]))
        elif k < .28:
            w = r.choice([0xFFFFFFFF, 0xFFFFFFF9, 0xFFFFFFF8, 0x7FFFFFFF, 0x80000000]); st = r.choice([0, 1, 2, 0x1FFFFFFF, 0x20000000])
        elif k < .34: h = r.choice([0xFFFFFFFF, 0x80000001, 65536, 0x40000001])
        elif k < .38: st = r.choice([0xFFFFFFFF, 0x80000000, 65537, 0x10001])
        p = u32(w) + u32(h) + u32(0 if r.random() < .9 else r.choice([1, 0x80000000, 256])) + u32(st) + d
        if r.random() < .08: p = p[:r.randrange(0, 17)]
    else: p = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 5, r.randrange(30)])))
    n = len(p)
    if r.random() < .06: n = r.choice([n + 1, n + 20, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, max(0, n - 1), 0xFFFFFFEC])
    return g + u32(n) + p
def script(r):
    x = {}
    k = r.random()
    if k < .1: t, wf = r.choice(RAW); x = dict(k='raw', t=C(t), wf=wf)
    else:
        x = dict(k='md', tags=r.random() < .9, pre=r.random() < .2, tag=[dict(n=C(r.choice(NAMES)), v=C(num(r))) for _ in range(r.choice([0, 1, 2, 3, 4]))])
        if r.random() < .5: x['tag'] += [dict(n=C('StageXPosition'), v=C(num(r))), dict(n=C('StageYPosition'), v=C(num(r)))]; r.shuffle(x['tag'])
        if r.random() < .9: x['fmt'] = C('CHUNKCONTAINER' if r.random() < .85 else r.choice(['chunkcontainer', 'CHUNKCONTAINER ', 'OTHER', '', 'CHUNKCONTAINE']))
    att = b''.join(chunk(r) for _ in range(r.choice([0, 1, 1, 2, 3, 4])))
    k = r.random()
    if k < .1: att = att[:r.randrange(len(att) + 1)]
    elif k < .2: att += bytes(r.randrange(256) for _ in range(r.choice([1, 19, 20, 21, 22])))
    s = dict(fam='chunk', xml=x, att=list(att), q=[C(n) for n in r.sample(NAMES, 4)] + ([t['n'] for t in x.get('tag', [])]), nomd=r.random() < .3, drop=r.random() < .3)
    if r.random() < .3: s['stop'] = r.randrange(1, 4)
    return s
