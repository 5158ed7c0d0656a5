"""Files as bytes, laid out by hand, with irregularities (P10) or corruptions (P09)."""
import struct
BPP = {0: 1, 1: 2, 2: 4, 3: 3, 4: 6, 8: 12, 9: 4, 10: 8, 11: 24, 12: 4, 13: 8}
def magic(s): return s.encode() + b'\0' * (16 - len(s))
class W:
    """byte buffer that remembers where each field lies"""
    def __init__(s): s.b = bytearray(); s.f = []
    def put(s, fmt, v, name): s.f.append((name, len(s.b), struct.calcsize('<' + fmt), fmt)); s.b += struct.pack('<' + fmt, v)
    def raw(s, x): s.b += x
    def pad(s, n): s.b += b'\0' * (n - len(s.b))
def dv(w, t, pos, p):
    w.f.append((p + 'schema', len(w.b), 2, '2s')); w.raw(t.get('schema', b'DV'))
    w.put('i', t['px'], p + 'px'); w.put('q', pos, p + 'pos'); w.put('i', 0, p + 'part'); w.put('i', t['cm'], p + 'cm')
    w.put('B', t['py'], p + 'py'); w.raw(b'\0' * 5); w.put('i', t.get('nd', len(t['d'])), p + 'nd')
    for k, (n, a, b, c, z) in enumerate(t['d']):
        w.f.append((p + 'dim', len(w.b), 4, '4s')); w.raw(n.encode().ljust(4, b'\0')); w.put('i', a, p + 'start'); w.put('i', b, p + 'size'); w.put('f', c, p + 'sc'); w.put('i', z, p + 'stored')
def seg(m, body, alloc=None, used=None):
    n = len(body.b); al = (n + 31) // 32 * 32 if alloc is None else alloc; us = n if used is None else used
    w = W(); w.f.append(('magic', 0, 16, '16s')); w.raw(magic(m)); w.put('q', al, 'alloc'); w.put('q', us, 'used')
    w.f += [(n_, o + 32, s, t) for n_, o, s, t in body.f]; w.raw(bytes(body.b)); w.raw(b'\0' * (-len(w.b) % 32)); return w
def rnd(r, n): return bytes(r.randrange(1, 256) for _ in range(n))
def tile(r, igx=False):
    px = r.choice([0, 0, 1, 3, 9, 2]); wd, ht = r.randrange(1, 6), r.randrange(1, 5); lw, lh = (wd, ht) if r.random() < .7 else (wd * 2, ht * 2)
    d = [('X', r.randrange(-20, 30), lw, 0.0, wd), ('Y', r.randrange(-20, 30), lh, 0.0, ht)]
    for n in r.sample('CZTSBRIHV', r.choice([0, 1, 1, 2, 3])): d.append((n, r.randrange(-1, 4), 1, 0.0, 1))
    if r.random() < .6: d.append(('M', r.randrange(0, 5), 1, 0.0, 1))
    if r.random() < .04: d += [(n, r.randrange(3), 1, 0.0, 1) for n in r.choices('CZTSBRIHV', k=r.choice([9, 20, 27]))]      # more than the 256 bytes of the fixed part
    if r.random() < .5: r.shuffle(d)
    if r.random() < .1: d = [(n.lower(), *q) for n, *q in d]
    data = rnd(r, wd * ht * BPP[px])
    return dict(px=px, cm=0, py=r.choice([0, 0, 1, 2]), d=d, data=data, meta=rnd(r, r.choice([0, 0, 7, 30])), att=rnd(r, r.choice([0, 0, 5, 16])))
ZSTD = bytes.fromhex('28b52ffd2006310000010203040506')      # a frame with the six bytes 1..6, stored
ALLD = ['X', 'Y', 'M', 'C', 'Z', 'T', 'S', 'B', 'R', 'I', 'H', 'V']
def irregular(r, t, where):
    """change the description so that it is irregular (values a parser may or may not take)"""
    d = list(t['d']); x = r.random()
    if x < .2: d = [q for q in d if q[0].upper() != r.choice('XY')]
    elif x < .45:
        k = r.randrange(len(d)); n, a, b, c, z = d[k]; f = r.choice([1, 2, 3]); v = [None, a, b, z]; v[f] = r.choice([0, 2, -1, 5, v[f] + 1, v[f] - 1]); d[k] = (n, v[1], v[2], c, v[3])
    elif x < .6: d = [(n, a, r.choice([0, 2, -1]) if n.upper() == 'M' else b, c, z) for n, a, b, c, z in d]
    elif x < .7: d.insert(r.randrange(len(d) + 1), (r.choice(ALLD), r.randrange(4), r.choice([1, 1, 2]), 0.0, r.choice([1, 1, 2])))
    elif x < .76 and d: d = [q for k, q in enumerate(d) if k != r.randrange(len(d))]
    elif x < .82: t['px'] = r.choice([0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13, 14, 255, -1])
    elif x < .86: t['py'] = r.choice([0, 1, 2, 3, 255])
    elif x < .9: t['cm'] = r.choice([0, 0, 2, 3, 7, -1])
    elif x < .93 and d: k = r.randrange(len(d)); d[k] = (r.choice(['Q', 'A', '', '1', 'W']), *d[k][1:])
    elif x < .96: d = d + [(r.choice('CZ'), 1, 1, 0.0, 1)] * r.choice([0, 40, 41 - len(d), 40 - len(d)])
    else: d = []
    t['d'] = d
NDISC = 16
def disc(r, t, k):
    """the k-th way in which one description differs from the other (both of them regular)"""
    d = list(t['d']); up = [q[0].upper() for q in d]; others = [j for j, n in enumerate(up) if n not in 'XYM']; m = [j for j, n in enumerate(up) if n == 'M']
    def ch(j, f, v): q = list(d[j]); q[f] = v; d[j] = tuple(q)
    if k == 0: d = [q for j, q in enumerate(d) if j not in m] if m else d + [('M', r.randrange(3), 1, 0.0, 1)]
    elif k == 1: d = d + [('M', 0, 1, 0.0, 1)] if not m else [q for j, q in enumerate(d) if j not in m]
    elif k == 2 and m: ch(m[0], 1, d[m[0]][1] + 1)
    elif k == 3 and others: j = r.choice(others); ch(j, 1, d[j][1] + r.choice([1, -1]))
    elif k == 4 and others: j = r.choice(others); d = d[:j] + d[j + 1:]
    elif k in (3, 4, 5): d = d + [(r.choice([x for x in 'CZTSBRIHV' if x not in up] or 'C'), r.randrange(2), 1, 0.0, 1)]
    elif k in (6, 7): j = up.index('XY'[k - 6]); ch(j, 1, d[j][1] + r.choice([1, -1]))
    elif k in (8, 9): j = up.index('XY'[k - 8]); ch(j, 2, d[j][2] + 1)
    elif k in (10, 11): j = up.index('XY'[k - 10]); ch(j, 4, d[j][4] + r.choice([1, -1]) if d[j][4] > 1 else 2)
    elif k == 12: t['px'] = r.choice([x for x in (0, 1, 2, 3, 9) if x != t['px']])
    elif k == 13: t['cm'] = r.choice([2, 3, 7])
    elif k == 14: t['py'] = (t['py'] + 1) % 3
    else: r.shuffle(d)                                    # no difference at all
    t['d'] = d
def build(r, tiles, atts, xml, xatt, irr=0, dk=None):
    """returns bytes and fields; the segments lie in arbitrary order, with gaps"""
    segs = []; mk = lambda kind, k, w: segs.append([kind, k, w])
    for k, t in enumerate(tiles):
        h = dict(t)
        if dk is not None: disc(r, h, dk)
        if irr == 1 and r.random() < .35: irregular(r, h, 'h')
        b = W(); b.put('i', len(t['meta']), 'sb.msize'); b.put('i', len(t['att']), 'sb.asize'); b.put('q', len(t['data']), 'sb.dsize'); dv(b, h, 0, 'sb.'); b.pad(256) if len(b.b) < 256 else None
        b.raw(t['meta'] + t['data'] + t['att']); mk('sb', k, seg('ZISRAWSUBBLOCK', b))
    for k, (g, ty, nm, c) in enumerate(atts):
        b = W(); b.put('q', len(c), 'at.dsize'); b.raw(b'\0' * 8); b.raw(b'A1' + b'\0' * 22 + g + ty.ljust(8, b'\0')[:8] + nm.ljust(80, b'\0')[:80]); b.pad(256); b.raw(c); mk('at', k, seg('ZISRAWATTACH', b))
    if xml is not None: b = W(); b.put('i', len(xml), 'md.xsize'); b.put('i', len(xatt), 'md.asize'); b.pad(256); b.raw(xml + xatt); mk('md', 0, seg('ZISRAWMETADATA', b))
    mk('dir', 0, None)
    if atts or r.random() < .5: mk('adir', 0, None)
    for _ in range(r.choice([0, 0, 1])): b = W(); b.raw(b'\0' * 40); mk('del', 0, seg('DELETED', b))
    r.shuffle(segs)
    def dirseg(pos):
        b = W(); b.put('i', len(tiles), 'dir.count'); b.pad(128)
        for k, t in enumerate(tiles): dv(b, dir_t[k], pos.get(('sb', k), 0), 'dir.')
        u = len(b.b); z = r0; return seg('ZISRAWDIRECTORY', b, used=0 if z < .08 else None, alloc=u if z < .08 else None)
    def adirseg(pos):
        b = W(); b.put('i', len(atts), 'adir.count'); b.pad(256)
        for k, (g, ty, nm, c) in enumerate(atts): b.f.append(('adir.schema', len(b.b), 2, '2s')); b.raw(b'A1' + b'\0' * 10); b.put('q', pos.get(('at', k), 0), 'adir.pos'); b.raw(b'\0' * 4 + g + ty.ljust(8, b'\0')[:8] + nm.ljust(80, b'\0')[:80])
        return seg('ZISRAWATTDIR', b)
    r0 = r.random(); dir_t = []
    for t in tiles:
        q = dict(t)
        if irr and r.random() < .45: irregular(r, q, 'd'); q['d'] = q['d'][:60]
        if irr == 2 or (irr == 1 and r.random() < .5): t['d'], t['px'], t['py'], t['cm'] = q['d'], q['px'], q['py'], q['cm']
        dir_t.append(q)
    if irr == 2:                                  # the sub-block agrees with its directory entry
        for s in segs:
            if s[0] == 'sb':
                t = tiles[s[1]]; b = W(); b.put('i', len(t['meta']), 'sb.msize'); b.put('i', len(t['att']), 'sb.asize'); b.put('q', len(t['data']), 'sb.dsize'); dv(b, t, 0, 'sb.'); b.pad(256) if len(b.b) < 256 else None
                b.raw(t['meta'] + t['data'] + t['att']); s[2] = seg('ZISRAWSUBBLOCK', b)
    pos = {}
    for rnd_ in (0, 1):
        o = 544
        for kind, k, w in segs:
            pos[(kind, k)] = o; x = w or (dirseg(pos) if kind == 'dir' else adirseg(pos)); o += len(x.b)
    b = W(); b.put('i', 1, 'fh.major'); b.put('i', 0, 'fh.minor'); b.raw(b'\0' * 8 + rnd(r, 32)); b.put('i', 0, 'fh.part'); b.put('q', pos[('dir', 0)], 'fh.dir'); b.put('q', pos.get(('md', 0), 0), 'fh.meta'); b.put('i', 0, 'fh.upd'); b.put('q', pos.get(('adir', 0), 0), 'fh.att'); b.pad(512)
    out = bytearray(); fields = []
    def add(w):
        fields.extend((n, o + len(out), s, t) for n, o, s, t in w.f); out.extend(w.b)
    add(seg('ZISRAWFILE', b))
    for kind, k, w in segs: add(w or (dirseg(pos) if kind == 'dir' else adirseg(pos)))
    return out, fields
XML = [b'<?xml version="1.0"?><ImageDocument><Metadata><Information><Image><SizeC>2</SizeC></Image></Information></Metadata></ImageDocument>', b'<ImageDocument/>', b'', b'<a><b', b'\xff\xfe\x00']
def doc(r, irr):
    tiles = [tile(r) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    if not irr and r.random() < .1:
        for t in tiles: t['cm'] = r.choice([5, 6]); t['data'] = (b'\1' if t['cm'] == 6 else b'') + ZSTD
    atts = [(rnd(r, 16), r.choice([b'JPG', b'CZI', b'12345678', b'']), r.choice([b'Thumb', b'N' * 80, b'', b'x' * 79]), rnd(r, r.choice([0, 3, 40]))) for _ in range(r.choice([0, 0, 1, 2]))]
    xml = r.choice(XML) if r.random() < .8 else None
    return build(r, tiles, atts, xml, rnd(r, r.choice([0, 0, 6])), irr)
POL = [0, 1, 128, 129]
def opens(r, deep, n=None):
    o = [dict(o='open', lax=r.random() < .5, igm=r.random() < .5, pol=r.choice(POL), deep=deep) for _ in range(n or r.choice([1, 2]))]
    if r.random() < .06: o.append(dict(o='open', nul=True, lax=True, igm=False, pol=0))
    if r.random() < .5: o.append(dict(o='edit'))
    return o
def strict(r):
    b, f = doc(r, r.choice([0, 1, 1, 2, 2, 2])); return dict(fam='parse', hex=bytes(b).hex(), exact=True, ops=opens(r, False, r.choice([2, 3, 4])))
def discrepancy(r, k):
    t = tile(r); b, f = build(r, [t], [], None, b'', 0, k % NDISC)
    return dict(fam='parse', hex=bytes(b).hex(), exact=True, ops=[dict(o='open', lax=r.random() < .7, igm=r.random() < .5, pol=p, deep=False) for p in POL] + [dict(o='edit')])
RANGE = {'b': (-128, 127), 'B': (0, 255), 'i': (-2 ** 31, 2 ** 31 - 1), 'q': (-2 ** 63, 2 ** 63 - 1)}
def corrupt(r):
    b, fs = doc(r, 0); n0 = len(b); pristine = False
    x = r.random()
    if x < .04: pristine = True
    elif x < .2: del b[r.choice([r.randrange(len(b)), max(0, len(b) - r.randrange(1, 80)), r.choice(fs)[1], 543, 544]):]
    else:
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            n, o, s, t = r.choice(fs)
            if r.random() < .5: n, o, s, t = r.choice([q for q in fs if q[0].split('.')[-1] in ('nd', 'count', 'msize', 'asize', 'dsize', 'xsize', 'alloc', 'used', 'pos', 'dir', 'meta', 'att')] or fs)
            if o + s > len(b): continue
            if t.endswith('s'):
                k = o + r.randrange(min(s, 4)); b[k] = r.choice([0, 255, b[k] ^ 1, b[k] ^ 32, r.randrange(256), 69, 88, 89, 77])
            elif t == 'f': b[o:o + 4] = struct.pack('<f', r.choice([0.0, float('nan'), 1e38]))
            else:
                old = struct.unpack('<' + t, b[o:o + s])[0]; lo, hi = RANGE[t]
                pos = [q[1] for q in fs if q[0] == 'magic']
                v = r.choice([0, 1, -1, old + 1, old - 1, old + 4, old * 2, lo, hi, hi - 1, lo + 1, n0, n0 - 1, n0 - o, n0 + 1, 2 ** 31, 2 ** 32, 2 ** 32 - 1, 2 ** 40, 40, 41, 39, 100, 127, 128, 129, 214748365, 107374183, 0x40000001, r.choice(pos), r.choice(pos) + 1, r.randrange(-5, 60)])
                if n.split('.')[-1] in ('stored',) and 20000 < v < 2 ** 30: v = hi
                if v < lo or v > hi: v = (v - lo) % (hi - lo + 1) + lo
                b[o:o + s] = struct.pack('<' + t, v)
        if r.random() < .15:
            for _ in range(r.choice([1, 4, 20])): k = r.randrange(len(b)); b[k] = r.choice([0, 255, r.randrange(256), b[k] ^ (1 << r.randrange(8))])
    return dict(fam='parse', hex=bytes(b).hex(), exact=False, pristine=pristine, ops=opens(r, r.random() < .5))
def from_model(r, ds):
    """one file per dimension list produced by the specification, opened under every option; the sub-block agrees with its entry"""
    out = []
    for g in ds:
        d = [(q['n'], q['start'], q['size'], 0.0, q['stored']) for q in g['d']]
        t = dict(px=0, cm=0, py=0, d=d, data=rnd(r, 4), meta=b'', att=b'')
        b, f = build(r, [t], [], None, b'')
        out.append(dict(fam='parse', hex=bytes(b).hex(), exact=True, ops=[dict(o='open', lax=l, igm=i, pol=0) for l, i in ((True, False), (False, False), (False, True))]))
    return out
