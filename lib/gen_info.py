"""Document information (P27): metadata documents over the element tables of specs/DocInfo.tla, and sequences of the writing helpers."""
import os, re
SPEC = open(os.path.join(os.path.dirname(__file__), '..', 'specs', 'DocInfo.tla')).read()
TAB = {}
for m in re.finditer(r'^T([A-Z]\w*) == (.*?)(?=^\w|^\(\*)', SPEC, re.S | re.M): TAB[m.group(1)] = re.findall(r'<<"([^"]+)","([^"]+)">>', m.group(2))
ENUM = {m.group(1): re.findall(r'"([^"]+)"', m.group(2)) for m in re.finditer(r'^E(\w+E) == <<(.*?)>>', SPEC, re.S | re.M)}
TXT = ['a', 'Alexa 488', 'x<y & "z"', 'h\u00e9\u03b1 \u4e2d', '0', 'true', '  lead and trail  ', "it's", '#FF00FF00', 'http://x/y?z=1&w', 'A' * 200, '-', '5x']
def num(r, neg=True):
    k = r.random()
    if k < .1: return [0, 0]
    m = r.choice([r.randrange(1, 10), r.randrange(1, 1000), r.randrange(1, 10**8)]); x = r.choice([0, 0, -1, -2, -3, -7, -9, 1, 3])
    return [-m if neg and r.random() < .25 else m, x]
def node(n, v=None, c=None, a=None): return dict(n=n, a=a or [], v=v or dict(k='e'), c=c or [])
def rng_item(r, integer):
    def v(): return [r.choice([r.randrange(1, 2000), r.randrange(1, 10**8)]), r.choice([0, 0, 3]) if integer else r.choice([0, 0, -1, -3, 1])]
    s = r.choice('vvrrft'); return dict(s=s, a=v() if s in 'vrf' else [], b=v() if s in 'rt' else [])
def badrange(r):
    a, b = str(r.randrange(1, 3000)), str(r.randrange(1, 3000)); c = r.choice(['x', '-', '-7', ';', ';8', '\u4e2d', '+', 'm', '_', '%'])
    return r.choice([a + '-' + b + c, '-' + a + c, a + (c if c not in ('-', '-7') else 'y'), c.strip('-7') + 'q' + a + '-' + b, a + '-' + 'q' + b, a + '-' + b + '-' + a, '-' + 'z' + a])
def value(r, kind):
    if kind == 's': return dict(k='e') if r.random() < .08 else dict(k='s', s=r.choice(TXT))
    if kind == 'd':
        if r.random() < .06: return dict(k='j', s=r.choice(['abc', '1e999', '-1e999', '12,5', '--3', 'NaN', 'INF', '0x10', '1e-999', '.']))
        m, x = num(r); f = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6]); return dict(k='d', m=m, x=x, f=f)
    if kind in ('i', 'u'):
        if r.random() < .05: return dict(k='j', s=r.choice(['abc', '99999999999', '1.5', '']))
        return dict(k='i', i=r.choice([0, 1, -1, 8, 12, 1999999999, r.randrange(100000)]), f=r.choice([0, 0, 2]))
    if kind == 'b': return dict(k='b', b=r.random() < .5, f=r.choice([0, 1]))
    if kind == 'color': return dict(k='c', rgb=[r.choice([0, 255, 1, r.randrange(256)]) for _ in range(3)], f=r.choice([0, 1])) if r.random() < .85 else dict(k='s', s=r.choice(['red', '#12', '#GG000000', '#FFFFFFFFF']))
    if kind == 'exp':
        if r.random() < .35: return dict(k='s', s=r.choice(['abc', '-', 'x12', '5-x', '99999999999999999999999']) if r.random() < .4 else badrange(r))
        return dict(k='r', r=[rng_item(r, True)], f=r.choice([0, 1]))
    if kind == 'date':
        if r.random() < .2: return dict(k='s', s=r.choice(['yesterday', '2010-13-01T00:00:00', '2011-02-29T00:00:00', '2010-01-01']))
        return dict(k='t', t=[r.choice([2010, 1, 9999, 1999]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60), r.choice([0, 1])])
    if kind in ('d2', 'ilist'):
        n = r.choice([0, 1, 2, 2, 2, 3, 5])
        if r.random() < .08: return dict(k='j', s=r.choice(['a b', '1 x', '1;2', '99999999999 1', '1e999 2', '\u4e2d 1', '1\u4e2d2']))
        return dict(k='l', l=[[r.randrange(-50, 5000), 0] if kind == 'ilist' else num(r) for _ in range(n)])
    raise KeyError(kind)
def decoys(r, tab, have):
    out = []
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        n = r.choice(tab)[0]; out.append(node(r.choice([n + 'x', n[:-1] or 'q', n.lower() + '_', 'Other' + n]), dict(k='s', s='7')))
    return [d for d in out if d['n'] not in have]
def element(r, f, kind, p):
    if kind in ENUM: return node(f, dict(k='e') if r.random() < .03 else dict(k='s', s=r.choice([x for x in ENUM[kind] if x[0] != '?']) if r.random() < .88 else r.choice(['Foo', 'other', r.choice(ENUM[kind]) + 'x', 'O'])))
    if kind == 'ref': return node(f, a=[['Id', r.choice(TXT + [''])]] if r.random() < .85 else [['Ids', 'q']])
    if kind == 'refs': return node(f, c=[node(r.choice(['ChannelRef'] * 4 + ['Channel']), a=[['Id', 'Channel:%d' % r.randrange(5)]] if r.random() < .85 else []) for _ in range(r.choice([0, 1, 2, 3]))])
    if kind == 'spec':
        k = r.random()
        if k < .4: return node(f, c=[node('SinglePeak', value(r, 'd'))])
        if k < .9: return node(f, c=[node('Ranges', dict(k='r', r=[rng_item(r, False) for _ in range(r.choice([1, 1, 2, 3]))], f=r.choice([0, 1, 2])) if r.random() < .7 else dict(k='s', s=r.choice(['abc', ',', '1-x', 'x-1']) if r.random() < .3 else ','.join([badrange(r), '1-2', '7'][:r.randrange(1, 4)][::r.choice([1, -1])])))])
        return node(f, c=[node('Peak', dict(k='s', s='5'))] if r.random() < .5 else [])
    if kind == 'pos':
        k = r.random()
        if k < .45: return node(f, c=[node('Interval', c=[node(n, value(r, 'd')) for n in ('Start', 'Increment') if r.random() < .85])])
        if k < .9: return node(f, c=[node('List', c=[node('Offsets', dict(k='l', l=[num(r) for _ in range(r.choice([0, 1, 2, 3, 8]))]) if r.random() < .9 else dict(k='j', s=r.choice(['abc', '1 2 x 3', '1e999 2', '1 1e-999', '  1  2 ', '1\u4e2d'])))] if r.random() < .9 else [])])
        return node(f)
    if kind == '*LightSource': return node(f, c=[node('LightSourceSettings', c=fields(r, 'LightSource', p)) for _ in range(r.choice([0, 1, 2, 3]))])
    if kind[0] == '@': return node(f, c=fields(r, kind[1:], p))
    return node(f, value(r, kind))
def fields(r, cls, p):
    out = [element(r, f, k, p) for f, k in TAB[cls] if r.random() < p]; out += decoys(r, TAB[cls], {x['n'] for x in out} | {x[0] for x in TAB[cls]}); r.shuffle(out); return out
def tree(r, p=None, cls=None):
    p = p if p is not None else r.choice([.15, .4, .8, 1])
    def keep(q=.9): return r.random() < q
    img = []
    for d in 'ZCTRSIHVB':
        if r.random() < .4: img.append(node('Start' + d, dict(k='i', i=r.choice([0, 1, -3, 7]), f=r.choice([0, 2]))))
        if r.random() < .5: img.append(node('Size' + d, dict(k='i', i=r.choice([1, 2, 10, 1000]), f=r.choice([0, 2]))))
    dims = []
    if keep(.7): dims.append(node('Z', c=fields(r, 'Z', max(p, .4))))
    if keep(.7): dims.append(node('T', c=fields(r, 'T', max(p, .5))))
    if keep(): dims.append(node('Channels', c=[node('Channel', c=fields(r, 'Channel', p if k == 0 else r.choice([0, .1, p])), a=[['Id', 'Channel:%d' % k]] * (r.random() < .8) + [['Name', r.choice(TXT)]] * (r.random() < .6)) for k in range(r.choice([0, 1, 1, 2, 3]))]))
    r.shuffle(dims)
    if keep(): img.append(node('Dimensions', c=dims))
    inf = []
    if keep(.8): inf.append(node('Document', c=fields(r, 'Document', r.choice([.3, .7, 1]))))
    if keep(.95): inf.append(node('Image', c=img))
    md = []
    if keep(.95): md.append(node('Information', c=inf))
    if keep(.7): md.append(node('Scaling', c=[node('Items', c=[node('Distance', a=[['Id', d]], c=[x for x in [node('Value', dict(k='d', m=r.randrange(1, 10**r.choice([1, 4, 8])), x=r.choice([0, -3, -7, -12]), f=r.choice([0, 1, 2, 6]))) if r.random() < .9 else None, node('DefaultUnitFormat', dict(k='s', s=r.choice(['\u00b5m', 'nm', 'inch', 'm']))) if r.random() < .6 else None] if x]) for d in r.sample('XYZW', r.choice([0, 1, 3, 3, 4]))])] if r.random() < .95 else []))
    r.shuffle(md); return node('ImageDocument', c=[node('Metadata', c=md)] if r.random() < .97 else [])
def opt(r, q, f): return f() if r.random() < q else []
def wop(r):
    k = r.random()
    if k < .3:
        via = r.choice([0, 1]); f = {n: opt(r, .5, lambda: [r.choice(TXT + ['']) if via == 0 else r.choice(TXT)]) for n in ('Name', 'Title', 'UserName', 'Description', 'Comment', 'Keywords', 'CreationDate')}; f['Rating'] = opt(r, .5, lambda: [r.choice([0, 1, 5, 100] + ([-1] if via == 0 else []))])
        return dict(o='wdoc', via=via, f=f)
    if k < .5: return dict(o='wscale', X=opt(r, .7, lambda: num(r, False)), Y=opt(r, .7, lambda: num(r, False)), Z=opt(r, .5, lambda: num(r, False)), ex=r.random() < .6, UX=r.choice(['', '\u00b5m']), UY=r.choice(['', 'nm']), UZ=r.choice(['', 'm']))
    if k < .65: return dict(o='wt', t=opt(r, .6, lambda: [r.choice([2010, 1, 9999, -44]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60), r.choice([0, 1])]), iv=r.random() < .5, s=opt(r, .7, lambda: num(r)), n=opt(r, .7, lambda: num(r)), l=[num(r) for _ in range(r.choice([0, 1, 2, 6]))], inf=r.choice([0, 1]))
    if k < .8: return dict(o='wz', p=opt(r, .7, lambda: num(r)), iv=r.random() < .5, s=opt(r, .7, lambda: num(r)), n=opt(r, .7, lambda: num(r)), l=[num(r) for _ in range(r.choice([0, 1, 2, 6]))], inf=r.choice([0, 1]))
    if k < .84: return dict(o='wsize', w=r.randrange(1, 10**6), h=r.randrange(1, 10**6))
    if k < .87: return dict(o='wm', m=r.randrange(1, 10**6))
    if k < .9: return dict(o='wdim', d=r.choice('ZCTRSIHVB'), n=r.randrange(1, 10**4))
    if k < .94: return dict(o='wstat', x=r.randrange(-50, 50), y=r.randrange(-50, 50), w=r.randrange(1, 10**6), h=r.randrange(1, 10**6), dims=[[d, r.randrange(-3, 9), r.randrange(1, 99)] for d in sorted(r.sample('ZCTRSIHVB', r.choice([0, 1, 3, 9])))], m=opt(r, .5, lambda: sorted([r.randrange(0, 99), r.randrange(0, 99)])))
    key, ok = r.choice([('Key', 1), ('_a', 1), ('k', 1), ('Key_2', 1), ('abcXml', 1), ('xm', 1), ('xyz', 1), ('1a', 0), ('', 0), ('a b', 0), ('a/b', 0), ('a<', 0), ('xml', 0), ('XMLx', 0), ('a[0]', 0)])
    t = r.choice(['Int32', 'Boolean', 'Double', 'Float', 'String', 'Invalid']); return dict(o='wkv', key=key, ok=ok if t != 'Invalid' else 0, t=t, i=r.choice([0, -1, 1999999999, -1999999999, 42]), b=r.random() < .5, d=num(r), s=r.choice(TXT[:6]))
def script(r):
    if r.random() < .6: return dict(fam='info', ops=[dict(o='info', tree=tree(r)) for _ in range(4)])
    return dict(fam='info', ops=[wop(r) for _ in range(8)])
def cscript(r): return dict(fam='info', ops=[dict(o='cinfo', tree=tree(r)) for _ in range(4)])
# one element at a time: each field alone, with every enumeration name
def systematic(r, op='info'):
    out = []
    def wrap(cls, kids):
        paths = dict(Detector=['DetectorSettings'], LightSource=['LightSourcesSettings', 'LightSourceSettings'], Polarization=['LightSourcesSettings', 'LightSourceSettings', 'Polarization'], LightPath=['LightPath'], LaserScan=['LaserScanInfo'], Spim=['SPIMIlluminationSettings'], Objective=['SPIMIlluminationSettings', 'IlluminationObjectiveSettings'],
                     Resonance=['SPIMIlluminationSettings', 'ResonanceScannerSettings'], Galvo=['SPIMIlluminationSettings', 'GalvoScannerSettings'], SpimDet=['SPIMDetectionSettings'], Sim=['SIMSettings'], Polarizing=['PolarizingSettings'], Airyscan=['AiryscanSettings'], FastAiry=['AiryscanSettings', 'FastAiryScanSettings'], Ratio=['Ratio'], Channel=[])
        if cls == 'Document': return node('ImageDocument', c=[node('Metadata', c=[node('Information', c=[node('Document', c=kids)])])])
        if cls in ('Z', 'T'): inner = node(cls, c=kids)
        elif cls == 'Distance': return node('ImageDocument', c=[node('Metadata', c=[node('Scaling', c=[node('Items', c=[node('Distance', a=[['Id', r.choice('XYZ')]], c=kids)])])])])
        else:
            for p in reversed(paths[cls]): kids = [node(p, c=kids)]
            inner = node('Channels', c=[node('Channel', c=kids)])
        return node('ImageDocument', c=[node('Metadata', c=[node('Information', c=[node('Image', c=[node('Dimensions', c=[inner])])])])])
    for cls, tab in TAB.items():
        for f, k in tab:
            if k in ENUM:
                for x in [y for y in ENUM[k] if y[0] != '?']: out.append(wrap(cls, [node(f, dict(k='s', s=x))]))
            else:
                for _ in range(10 if k in ('exp', 'spec', 'color', 'date', 'pos', 'd2') else 3):
                    e = element(r, f, k, .5)
                    if cls == 'Distance' and e['v']['k'] in 'ej': continue
                    out.append(wrap(cls, [e]))
    return [dict(fam='info', ops=[dict(o=op, tree=t) for t in out[k:k + 8]]) for k in range(0, len(out), 8)]
