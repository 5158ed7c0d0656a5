"""The C interface (P23)."""
import html
KINDS = ['rd', 'in', 'sb', 'at', 'bm', 'md', 'di', 'ds', 'cd', 'os', 'wr', 'ac']
W = ['', 'a', 'Zürich 5', 'x<y&z', 'µ-Schnitt', 'αβγ', 'long ' * 12]
def esc(t): return html.escape(t, False)
def xml(r):
    x = r.random()
    if x < .06: return None
    if x < .10: return ''
    if x < .15: return r.choice(['<a><b></a>', 'nonsense', '<Root/>'])
    t = ''
    d = ''.join('<%s>%s</%s>' % (k, esc(r.choice(W)), k) for k in ['Name', 'Title', 'UserName', 'Description', 'Comment', 'Keywords'] if r.random() < .5)
    if r.random() < .4: d += '<Rating>%d</Rating>' % r.randrange(6)
    if r.random() < .4: d += '<CreationDate>2020-05-06T07:08:09</CreationDate>'
    if r.random() < .8: t += '<Document>%s</Document>' % d
    im = ''.join('<Size%s>%d</Size%s>' % (k, r.randrange(1, 6), k) for k in 'XYZCTSRIHVB' if r.random() < .35)
    dm = ''
    if r.random() < .7:
        cs = ''
        for i in range(r.randrange(4)):
            c = ''
            for k in ['Fluor', 'DyeId', 'DyeDatabaseId', 'Reflector', 'CondenserContrast', 'ChannelUnit']:
                if r.random() < .4: c += '<%s>%s</%s>' % (k, esc(r.choice(W[1:])), k)
            for k in ['NACondenser', 'EffectiveNA', 'NDFilter', 'PinholeSize', 'EmissionWavelength', 'ExcitationWavelength', 'DepthOfFocus', 'SectionThickness']:
                if r.random() < .3: c += '<%s>%s</%s>' % (k, r.choice(['0.5', '1', '12.25', '1e3', '-3']), k)
            if r.random() < .4: c += '<ComponentBitCount>%d</ComponentBitCount>' % r.choice([8, 12, 16])
            if r.random() < .4: c += '<Color>#FF%06X</Color>' % r.randrange(1 << 24)
            cs += '<Channel%s%s>%s</Channel>' % (' Id="Channel:%d"' % i if r.random() < .9 else '', ' Name="%s"' % r.choice(['A', 'B b', 'µ']) if r.random() < .7 else '', c)
        dm += '<Channels>%s</Channels>' % cs
    if r.random() < .5:
        z = ''.join('<%s>%s</%s>' % (k, v, k) for k, v in [('StartPosition', '1.5')] if r.random() < .3)
        if r.random() < .5: z += '<ReferencePosition>%s</ReferencePosition>' % r.choice(['2', '0.25'])
        q = r.random()
        if q < .4: z += '<Positions><Interval><Start>%s</Start><Increment>%s</Increment></Interval></Positions>' % (r.choice(['0', '1.5']), r.choice(['0.5', '2']))
        elif q < .7: z += '<Positions><List><Offsets>%s</Offsets></List></Positions>' % ' '.join(r.choice(['1', '2.5', '7']) for _ in range(r.randrange(1, 4)))
        if r.random() < .4: z += '<XYZHandedness>%s</XYZHandedness>' % r.choice(['LeftHanded', 'RightHanded', 'Undefined', 'other'])
        if r.random() < .4: z += '<ZAxisDirection>%s</ZAxisDirection>' % r.choice(['FromSpecimenToObjective', 'FromObjectiveToSpecimen', 'Undefined'])
        if r.random() < .4: z += '<ZDriveMode>%s</ZDriveMode>' % r.choice(['Continuous', 'Step'])
        if r.random() < .4: z += '<ZDriveSpeed>%s</ZDriveSpeed>' % r.choice(['1', '2.5'])
        dm += '<Z>%s</Z>' % z
    if r.random() < .5:
        z = ''
        if r.random() < .6: z += '<StartTime>2021-02-03T04:05:06</StartTime>'
        q = r.random()
        if q < .4: z += '<Positions><Interval><Start>%s</Start><Increment>%s</Increment></Interval></Positions>' % (r.choice(['0', '1.5']), r.choice(['0.5', '2']))
        elif q < .7: z += '<Positions><List><Offsets>%s</Offsets></List></Positions>' % ' '.join(r.choice(['1', '2.5', '7']) for _ in range(r.randrange(1, 4)))
        dm += '<T>%s</T>' % z
    if r.random() < .8: t += '<Image>%s<Dimensions>%s</Dimensions></Image>' % (im, dm)
    t = '<Information>%s</Information>' % t
    if r.random() < .6: t += '<Scaling><Items>%s</Items></Scaling>' % ''.join('<Distance Id="%s"><Value>%s</Value></Distance>' % (k, r.choice(['1e-06', '2.5e-07', '0.001'])) for k in 'XYZ' if r.random() < .7)
    if r.random() < .6:
        cs = ''
        for i in range(r.randrange(1, 4)):
            c = '<IsSelected>%s</IsSelected>' % r.choice(['true', 'false']) if r.random() < .4 else ''
            if r.random() < .5: c += '<Low>%s</Low>' % r.choice(['0', '0.1', '0.25'])
            if r.random() < .5: c += '<High>%s</High>' % r.choice(['0.5', '0.9', '1'])
            if r.random() < .5: c += '<Weight>%s</Weight>' % r.choice(['0.5', '1', '0.25'])
            if r.random() < .5: c += '<Color>#FF%06X</Color><ColorMode>%s</ColorMode>' % (r.randrange(1 << 24), r.choice(['Color', 'None', 'Palette']))
            q = r.random()
            if q < .3: c += '<Gamma>%s</Gamma>' % r.choice(['0.5', '2', '1.25'])
            elif q < .5: c += '<Mode>Spline</Mode><Points>0.2,0.4 0.6,0.5</Points>'
            cs += '<Channel Id="Channel:%d">%s</Channel>' % (i, c)
        t += '<DisplaySetting><Channels>%s</Channels></DisplaySetting>' % cs
    return '<?xml version="1.0" encoding="utf-8"?><ImageDocument><Metadata>%s</Metadata></ImageDocument>' % t
def doc(r, n):
    scenes = r.random() < .3; nc = r.choice([1, 1, 2]); pts = [r.choice([0, 0, 1, 3]) for _ in range(nc)]; tiles = []
    for k in range(r.choice([0, 1, 2, 3, 5])):
        ch = r.randrange(nc); c = [['C', ch], ['T', n % 7]] if r.random() < .9 else [['C', ch], ['T', n % 7 + 1]]
        if scenes: c.append(['S', r.randrange(2)])
        w, h = r.randrange(1, 6), r.randrange(1, 5); f = r.choice([1, 1, 1, 2])
        tiles.append(dict(c=c, hm=r.random() < .8, m=k, x=r.randrange(-3, 8), y=r.randrange(-3, 8), w=w * f, h=h * f, pw=w, ph=h, pt=pts[ch], s=n * 13 + k * 7 + 1, cmp=r.choice([0, 0, 5, 6]), hl=r.random() < .5, hk=False))
        if any(not q['hm'] and q['c'] == c for q in tiles[:-1]): tiles[-1]['hm'] = True   # the writer refuses duplicates
        if r.random() < .2: tiles[-1].update(hk=True, mw=w, mh=h, ms=r.randrange(1, 9), mpad=0)
    atts = [dict(g=100 + n * 10 + k, n='att%d-%d' % (n, k) + 'é' * r.choice([0, 0, 3, 30]), t=r.choice(['BIN', 'CZTXT', 'ABCDEFGH']), len=r.choice([0, 1, 7, 33]), s=n * 5 + k) for k in range(r.choice([0, 1, 2, 3]))]
    d = dict(g=n, tiles=tiles, atts=atts); x = xml(r)
    if x is not None: d['xml'] = x
    return d
MAKE = {'rd': ['rsb', 'gmd', 'rat', 'cacc'], 'sb': ['cbm'], 'md': ['cdi'], 'di': ['gds'], 'ds': ['cds'], 'ac': ['get']}
USE = {'rd': ['hdr', 'stat', 'statx', 'pyr', 'atn', 'ati', 'sbi', 'rsb', 'gmd', 'rat', 'cacc', 'open'], 'sb': ['cbm', 'sbinfo', 'sbraw'], 'at': ['atinfo', 'atraw'], 'bm': ['bminfo', 'lock', 'unlock', 'copy', 'peek'], 'md': ['xml', 'cdi'],
       'di': ['gen', 'scal', 'dims', 'gds', 'dimi'], 'ds': ['cds', 'fill'], 'ac': ['csize', 'get'], 'wr': ['create', 'addsb', 'addatt', 'wmeta', 'wclose']}
NEWK = {'rsb': 'sb', 'gmd': 'md', 'rat': 'at', 'cacc': 'ac', 'cbm': 'bm', 'cdi': 'di', 'gds': 'ds', 'cds': 'cd', 'get': 'bm'}
ALLUSE = [(k, o) for k in USE for o in USE[k]]
def script(r):
    nd = r.choice([1, 2, 2, 3]); docs = [doc(r, r.randrange(1, 90) * 3 + k) for k in range(nd)]
    ops = []; live = {}; st = dict(id=0, nx=0)   # id -> dict(k, d, l, ...)
    exts = []  # (index, kind)
    def nid(): st['id'] += 1; return st['id']
    def of(k): return [h for h in live if live[h]['k'] == k]
    def handle(k, wrong=.06):
        """a handle for an operation on kind k: usually right, sometimes null or of another kind"""
        x = r.random()
        if x < wrong / 2: return 0
        if x < wrong:
            o = [h for h in live if live[h]['k'] != k]
            if o: return r.choice(o)
        o = of(k)
        if k == 'rd':
            q = [h for h in o if live[h]['d'] >= 0]
            if q and r.random() < .85: return r.choice(q)
        return r.choice(o) if o else None
    def mkin():
        d = r.randrange(nd); k = r.choice(['ext', 'ext', 'u8', 'wide', 'class']); op = dict(o='mkin', id=nid(), d=d, k=k); bad = False
        if r.random() < .05:
            f = r.choice(['nul', 'nulst', 'missing', 'badclass', 'badbag'])
            if f == 'nul' or (f == 'nulst' and k == 'ext') or (f == 'missing' and k != 'ext') or (f in ('badclass', 'badbag') and k == 'class'): op[f] = True; bad = True
        ops.append(op)
        if not bad:
            live[op['id']] = dict(k='in', d=d, x=st['nx'] if k == 'ext' else -1)
            if k == 'ext': exts.append(st['nx']); st['nx'] += 1
    def mkrd():
        op = dict(o='mkrd', id=nid()); ops.append(op); live[op['id']] = dict(k='rd', d=-1, fail=False)
    def mkos():
        k = r.choice(['ext', 'ext', 'u8', 'wide']); op = dict(o='mkos', id=nid(), k=k, over=r.random() < .5); ops.append(op); x = -1
        if k == 'ext': x = st['nx']; st['nx'] += 1
        live[op['id']] = dict(k='os', x=x)
    def mkwr():
        op = dict(o='mkwr', id=nid(), opt=r.randrange(7)); ops.append(op); live[op['id']] = dict(k='wr', st=0, subs=[], os=None, ox=-1, atts=set())
    def opn(h):
        s = handle('in', .08)
        if s is None: return
        op = dict(o='open', h=h, s=s)
        if r.random() < .03: op['nul'] = True
        ops.append(op)
        if h in live and live[h]['k'] == 'rd' and live[h]['d'] < 0 and s in live and live[s]['k'] == 'in' and 'nul' not in op and live[s]['x'] not in fails: live[h]['d'] = live[s]['d']
    fails = set()
    def use(k, o, h=None):
        if h is None: h = handle(k)
        if h is None: return
        right = h in live and live[h]['k'] == k
        if o == 'open': return opn(h)
        op = dict(o=o, h=h)
        if r.random() < .03 and o not in ('unlock', 'peek', 'wclose', 'create'): op['nul'] = True
        d = docs[live[h]['d']] if right and k in ('rd', 'sb', 'at', 'md', 'di', 'ds', 'ac') and live[h].get('d', -1) >= 0 else None
        if o in ('rsb', 'sbi'): n = len(d['tiles']) if d else 1; op['i'] = r.randrange(n) if n and r.random() < .93 else r.choice([-1, n, n + 5])
        elif o in ('rat', 'ati'): n = len(d['atts']) if d else 1; op['i'] = r.randrange(n) if n and r.random() < .93 else r.choice([-1, n, n + 5])
        elif o == 'statx': op['cap'] = r.choice([0, 1, 2, 3, 10]); op['nc'] = r.random() < .2; op['cap'] = 0 if op['nc'] else op['cap']
        elif o in ('sbraw', 'atraw'): op['cap'] = r.choice([0, 1, 5, 40, 300]); op['nd'] = r.random() < .2; op['t'] = r.choice([0, 0, 1, 1, 2, -1] if r.random() < .2 else [0, 1])
        elif o == 'dims': op['cap'] = r.choice([0, 1, 3, 10, 10, 12])
        elif o == 'dimi': op['i'] = r.choice([1, 2, 3, 1, 2, 3, 0, 5, 99])
        elif o in ('cds', 'fill'): op['i'] = r.choice([0, 0, 1, 2, 3, -1, 9]); op['w16'] = r.random() < .2
        elif o == 'copy': op.update(isbm=right, dw=r.choice([0] * 8 + [1, -1]), dh=r.choice([0] * 8 + [1, -1]), dpt=r.random() < .06, pad=r.choice([0, 0, 0, 3, 16, -1]))
        elif o == 'peek' and not (right and live[h]['l'] > 0): return
        elif o in ('csize', 'get'):
            t = r.choice(d['tiles']) if d and d['tiles'] else None
            roi = [t['x'] + r.randrange(-2, 3), t['y'] + r.randrange(-2, 3), t['w'] + r.randrange(3), t['h'] + r.randrange(3)] if t else [0, 0, 4, 3]
            op['roi'] = roi; op['zn'] = r.choice([64, 64, 32, 20])
            if o == 'get':
                op['c'] = [x for x in t['c'] if x[0] != 'S'] if t else [['C', 0]]
                op.update(srt=r.random() < .7, vis=r.random() < .5, ap=r.randrange(6), bg=[r.randrange(5) for _ in range(3)])
                if r.random() < .08: op['noopt'] = True
        if o == 'create':
            s = handle('os', .08)
            if s is None or (right and live[h]['st'] != 0): return
            op['s'] = s
            if s in live and live[s]['k'] == 'os' and live[s].get('used'): return
            if r.random() < .5: op['guid'] = r.randrange(1, 50); op['brace'] = r.random() < .5
            for q in ('ra', 'rs', 'rm'):
                if r.random() < .25: op[q] = r.choice([0, 1, 300, 2000])
            if r.random() < .15: op['mm'] = [0, 1000]
            if r.random() < .15: op['js'] = r.randrange(5)
            if right and s in live and live[s]['k'] == 'os': live[s]['used'] = True; live[h].update(st=1, os=s, ox=live[s]['x'])
        elif o == 'addsb':
            w = live[h] if right else dict(subs=[], st=0)
            if w['subs'] and r.random() < .15:
                q = dict(r.choice(w['subs'])); q.pop('nul', None); q.update(o='addsb', h=h, sd=r.randrange(200)); op = q
            else:
                k2 = len(w['subs']) + r.randrange(1000) * 10; pw, ph = r.randrange(1, 7), r.randrange(1, 6)
                op.update(c=[['C', 0], ['T', r.randrange(3)]], hm=True, m=k2, x=r.randrange(-9, 30), y=r.randrange(-9, 30), w=pw, hh=ph, pw=pw, ph=ph, pt=0, cmp=r.choice([0, 0, 0, 5, 6, 1001, 4]), cl=r.choice([1, 9, 50]), pad=r.choice([0, 0, 3, 8]), dn=0, sd=r.randrange(200), ml=r.choice([0, 0, 5]), al=r.choice([0, 0, 9]))
                op['pt'] = r.choice([0, 1, 3]); op['c'][0][1] = [0, 1, None, 2][op['pt']]; op['key'] = '%s %d' % (op['c'], k2)
            op['dn'] = r.choice([0, 0, 0, 0, 7, -1, -5])
            if 'nul' not in op and op['dn'] >= 0 and right and w['st'] == 1: w['subs'].append(op)
        elif o == 'addatt':
            g = r.randrange(1, 10000)
            op.update(g=g, n='n%d' % g + 'z' * r.choice([0, 5, 70]), t=r.choice(['BIN', 'CZI', 'ABCDEFGH']), len=r.choice([0, 1, 30]), sd=r.randrange(100))
        elif o == 'wmeta': op['xml'] = '<M>%d</M>' % r.randrange(1000) * r.choice([1, 1, 20])
        elif o == 'wclose' and right:
            if live[h]['st'] == 2: return
            if live[h]['st'] == 1: live[h]['st'] = 2; ops.append(op); live[h]['closed'] = True; return
        if o in NEWK: op['id'] = nid()
        ops.append(op)
        if 'nul' in op or not right: return
        if o == 'lock': live[h]['l'] += 1
        elif o == 'unlock': live[h]['l'] = max(0, live[h]['l'] - 1)
        elif o in NEWK:
            # whether it succeeds is predicted here only to choose further operations; unknown handles are skipped by the driver
            live[op['id']] = dict(k=NEWK[o], d=live[h].get('d', -1), l=0, maybe=True)
    def comp():
        b = of('bm')
        if not b: return
        n = r.choice([1, 2, 3]); hs = [r.choice(b) for _ in range(n)]; ok = True
        if r.random() < .1: hs[r.randrange(n)] = r.choice([0] + [h for h in live if live[h]['k'] != 'bm']); ok = False
        op = dict(o='comp', id=nid(), hs=hs, allbm=ok, chs=[dict(wt=r.choice([16, 8, 4]), tint=r.random() < .5, r=r.randrange(256), g=r.randrange(256), b=r.randrange(256), bp=r.choice([0, 5]), wp=r.choice([40, 64]), lut=False) for _ in hs])
        if r.random() < .04: op['zero'] = True
        if r.random() < .04: op['nul'] = True
        ops.append(op); live[op['id']] = dict(k='bm', d=-1, l=0, maybe=True)
    def rel(h, k=None):
        k0 = live[h]['k'] if h else None; k = k or k0; op = dict(o='rel', h=h, k=k); ops.append(op)
        if h and k == k0 and not (k == 'bm' and live[h]['l'] > 0): 
            w = live.pop(h)
            if k == 'wr' and w.get('closed') and w['ox'] >= 0: ops.append(dict(o='dump', w=h, x=w['ox'], s=0))
            elif k == 'wr' and w.get('closed') and w['ox'] < 0: pend.append((h, w['os']))
    pend = []
    def chain():
        o = [h for h in of('rd') if live[h]['d'] >= 0]
        if not o: return
        h = r.choice(o)
        if r.random() < .6:
            use('rd', 'gmd', h); m = st['id']
            if m not in live: return
            use('md', 'xml', m); use('md', 'cdi', m); d = st['id']
            if d not in live or live[d]['k'] != 'di': return
            for q in r.sample(['gen', 'scal', 'dims', 'dimi', 'dimi', 'dimi'], r.randrange(1, 7)): use('di', q, d)
            use('di', 'gds', d); g = st['id']
            if g in live and live[g]['k'] == 'ds':
                for _ in range(r.randrange(1, 5)): use('ds', r.choice(['fill', 'fill', 'cds']), g)
        else:
            use('rd', 'rsb', h); m = st['id']
            if m not in live: return
            use('sb', 'cbm', m); b = st['id']
            if b not in live or live[b]['k'] != 'bm': return
            for _ in range(r.randrange(1, 6)): use('bm', r.choice(USE['bm']), b)
    for _ in range(r.choice([1, 2])): mkin(); mkrd()
    for h in of('rd'):
        s = of('in')
        if s and r.random() < .95: opn(h)
    if r.random() < .05: ops.append(dict(o='misc'))
    wrt = r.random() < .35
    for _ in range(r.choice([0, 1, 1, 2])): chain()
    for _ in range(r.choice([10, 20, 35, 60])):
        x = r.random()
        if x < .05: mkin()
        elif x < .09: mkrd()
        elif x < .13:
            o = of('rd')
            if o: opn(r.choice(o))
        elif x < .30:
            k = r.choice([k for k in MAKE if of(k)] or ['rd'])
            if of(k): use(k, r.choice(MAKE[k]))
        elif x < .34: comp()
        elif x < .37 and exts:
            q = r.choice(exts); on = q not in fails
            if on or True: ops.append(dict(o='fail', x=q, on=on)); (fails.add if on else fails.discard)(q)
        elif x < .50 and wrt:
            if not of('wr'): mkwr(); mkos()
            elif r.random() < .1: r.choice([mkwr, mkos])()
            else:
                w = of('wr'); q = [h for h in w if live[h]['st'] == 0]
                if q and r.random() < .5: use('wr', 'create', r.choice(q))
                else: use('wr', r.choice(['addsb', 'addsb', 'addsb', 'addatt', 'wmeta', 'wclose' if r.random() < .3 else 'addsb']))
        elif x < .58 and live:
            h = r.choice(list(live))
            if r.random() < .12: rel(h, r.choice([k for k in KINDS if k != live[h]['k']]))
            elif r.random() < .05: rel(0, r.choice(KINDS))
            else: rel(h)
        else:
            if r.random() < .1 : k, o = r.choice(ALLUSE)
            else:
                ks = [k for k in USE if of(k) and k != 'wr']
                if not ks: continue
                k = r.choice(ks); o = r.choice(USE[k])
            use(k, o)
    for h in of('wr'):
        if live[h]['st'] == 1: use('wr', 'wclose', h)
    left = list(live); r.shuffle(left)
    for h in left:
        if live[h]['k'] == 'bm':
            while live[h]['l'] > 0: ops.append(dict(o='unlock', h=h)); live[h]['l'] -= 1
        rel(h)
    for w, s in pend: ops.append(dict(o='dump', w=w, x=-1, s=s))
    return dict(fam='capi', docs=docs, ops=ops)
