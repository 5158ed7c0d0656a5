"""Seeded generators for doc-family scripts (the alphabet; the meaning is in the specification)."""
BPP = {0: 1, 1: 2, 2: 4, 3: 3, 4: 6, 8: 12, 9: 4, 10: 8, 11: 12, 12: 4, 13: 8}
DIMS = 'ZCTRSIHVB'

def data(r, big=False):
    n = r.choice([0, 1, 7, 16, 31, 32, 33, 100, 255, 256, 257, 300, 1000])
    if big and r.random() < .4: n = r.choice([4095, 4096, 4097, 8192, 9000, 12288, 20000])
    elif r.random() < .01: n = r.choice([65535, 65536, 65537, 70000, 131072 + 5])
    return dict(len=n, seed=r.randrange(1, 1 << 20))

def coord(r, style):
    if style == 'none': return []
    if style == 'full': ds = DIMS
    elif style == 'any': ds = [d for d in DIMS if r.random() < .4]
    else: ds = style
    v = lambda: r.choice([0, 0, 1, 2, 3, -1, 7]) if style in ('any', 'full') else r.randrange(0, 3)
    if style in ('any', 'full') and r.random() < .12: return [[d, r.choice([v(), 127, 128, 255, 256, 300, 32767, 32768, 65535, 70000, 1 << 24, (1 << 24) + 1, 1000000000, -1000000000, -70000] if d not in 'CS' else [v(), 127, 128, 255, 256, 300])] for d in ds]
    return [[d, v()] for d in ds]

def item(r, style='CZ', big=False, simple=False):
    w, h = r.choice([1, 2, 3, 4, 5, 8, 16, 21]), r.choice([1, 2, 3, 4, 6, 8, 10, 16])
    it = dict(c=coord(r, style), hm=r.random() < .75, m=r.choice([0, 1, 2, 3, 4, 17]), x=r.choice([0, 0, 5, 10, -7, 100, 33]), y=r.choice([0, 0, 3, 20, -11, 64]),
              pt=r.choice([0, 1, 2, 3, 4]), cmp=0, pyr=0)
    if r.random() < .1: it['m'] = r.choice([127, 128, 255, 256, 32768, 65535, 65536, 70001, (1 << 24) + 1, 1000000000])
    if r.random() < .12: it['x'] = r.choice([127, 255, 256, -256, 32767, -32768, 65536, -70000, (1 << 24) + 1, -900000000, 900000000])
    if r.random() < .12: it['y'] = r.choice([128, 256, -255, 32768, -32769, 65535, 70000, (1 << 24) + 3, -900000000, 900000000])
    if r.random() < .2: it['pt'] = r.choice([8, 9, 10, 11, 12, 13])
    f = r.choice([1, 1, 1, 1, 2, 2, 4, 8, 3, 9, 5, 7]) if not simple else 1
    if f > 1 and r.random() < .1: f = r.choice([16, 27, 64, 256, 1024, 32768, 65536])
    it.update(pw=w, ph=h, w=w * f, h=h * f)
    if f > 1: it['pyr'] = r.choice([1, 2, 2])
    k = r.random()
    if k < .35: it.update(via='mem', cmp=r.choice([0, 0, 1, 4, 5, 6, 77, 256, 1000, 70000, -5]), d=data(r, big))
    elif k < .6: it.update(via='func', cmp=r.choice([0, 0, 6]), d=data(r, big), chunk=r.choice([0, 0, 1, 5, 64, 4096]), over=r.choice([0, 0, 1, 37, 500]))
    else:
        it.update(via=r.choice(['line', 'strided']), pad=r.choice([0, 0, 1, 3, 16]), d=dict(len=0, seed=1), seed2=r.randrange(1, 1 << 20))
    if it.get('via') == 'func' and it.get('chunk') == 1 and it['d']['len'] > 300: it['chunk'] = 64
    if r.random() < .4: it['md'] = data(r)
    if r.random() < .4: it['at'] = data(r)
    return it

def bad_item(r, style='CZ'):
    it = item(r, style)
    k = r.randrange(4)
    if k == 0: it[r.choice(['w', 'h', 'pw', 'ph'])] = -1; it['via'] = 'mem'; it['d'] = data(r)
    elif k == 1: it['cmp'] = -2147483648; it['via'] = 'mem'; it['d'] = data(r)
    elif k == 2: it['via'] = 'func'; it['nullf'] = True; it['d'] = dict(len=20, seed=3)
    else: it['via'] = 'func'; it['short'] = r.choice([1, 10, 1000]); it['d'] = data(r)
    return it

def dup_of(r, it):
    o = dict(it); o['d'] = dict(len=r.randrange(0, 50), seed=r.randrange(1 << 16)); o['via'] = 'mem'; o['cmp'] = 0
    k = r.random()
    if k < .3: o['m'] = it['m'] + 1
    elif k < .5: o['x'] = it['x'] + 1; o['y'] = it['y'] + r.choice([0, 2])
    elif k < .6: o['hm'] = not it['hm']
    return o

FTS = ['CZI', 'JPG', 'ZIP-COMP', 'CZEXP', 'abcdefgh', 'a', '']
NAMES = ['Thumbnail', 'Label', 'EventList', 'x' * 79, 'x' * 80, 'n1', '']
def att(r, big=False):
    return dict(g=r.randrange(1, 6), ft=r.choice(FTS), nm=r.choice(NAMES), d=data(r, big))
def meta(r, big=False):
    n = r.choice([0, 1, 20, 40, 255, 256, 300, 1000])
    if big and r.random() < .5: n = r.choice([9000, 10240, 10241, 12000])
    return dict(d='<ImageDocument>' + ''.join(r.choice('abcdefgh ') for _ in range(n)) + '</ImageDocument>', **({'a': data(r)} if r.random() < .3 else {}))

def guid(r): return r.randrange(900001, 900017) if r.random() < .15 else r.randrange(1, 1 << 20)

def writer_script(r, big=False, extra=()):
    ops = [dict(op='w_new', dup=r.random() < .15)]
    for _ in range(r.choice([1, 1, 1, 2])):
        if len(ops) > 1: ops.append(dict(op='newfile'))
        style = r.choice(['none', 'any', 'full', 'CZ', 'C', 'SCT', 'CZ', 'S'])
        cr = dict(op='w_create', g=guid(r))
        if r.random() < .15: cr['noinfo'] = True
        bnd = style not in ('none', 'any', 'full') and r.random() < .4
        if bnd:
            cr['bounds'] = [[d, 0, r.choice([2, 3])] for d in style]
            if r.random() < .5: cr['mb'] = [0, r.choice([2, 5])]
        if r.random() < .4: cr['ra'] = r.choice([0, 0, 1, 2, 5, 40])
        if r.random() < .4: cr['rs'] = r.choice([0, 0, 1, 2, 5, 40, 6000, 20000])
        if r.random() < .4: cr['rm'] = r.choice([0, 0, 1, 64, 300, 1000, 5000, 20000])
        ops.append(cr); its = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 8, 14])):
            k = r.random()
            if k < .55 or not its:
                it = item(r, style if not bnd or r.random() < .8 else r.choice(['any', 'C']), big); its.append(it); ops.append(dict(op='w_add', it=it))
            elif k < .7: it = dup_of(r, r.choice(its)); its.append(it); ops.append(dict(op='w_add', it=it))
            elif k < .78: ops.append(dict(op='w_add', it=bad_item(r, style)))
            elif k < .92: ops.append(dict(op='w_att', **att(r, big), **({'nulp': True} if r.random() < .1 else {})))
            elif k < .97: ops.append(dict(op='w_meta', **meta(r, big), **({'nulp': True} if r.random() < .1 else {})))
            else: ops.append(dict(op=r.choice(['w_stats', 'w_prep']), nm=r.choice([0, 1, 2])))
        for _ in range(r.choice([0, 0, 1, 2, 4, 12])): ops.append(dict(op='w_att', **att(r, big)))
        for _ in range(r.choice([0, 1, 1, 2])): ops.append(dict(op='w_meta', **meta(r, big)))
        ops += [dict(op='w_stats'), dict(op='w_prep', nm=r.choice([0, 0, 1, 2])), dict(op='w_close'), dict(op='dump'), dict(op='layout')] + list(extra)
    if r.random() < .1: ops += [stretch(r), dict(op='dump')]
    return dict(fam='doc', ops=ops)

def editor_ops(r, n, style, its, big=False):
    ops = []
    for _ in range(n):
        k = r.random()
        if k < .28: it = item(r, style, big); its.append(it); ops.append(dict(op='e_add', it=it))
        elif k < .34 and its: ops.append(dict(op='e_add', it=dup_of(r, r.choice(its))))
        elif k < .37: ops.append(dict(op='e_add', it=bad_item(r, style)))
        elif k < .52: ops.append(dict(op='e_rep', sel=r.choice([0, 1, 2, 3, 5, -1]), it=item(r, style, big), same=r.random() < .6))
        elif k < .64: ops.append(dict(op='e_rem', sel=r.choice([0, 1, 2, 4, -1])))
        elif k < .74: ops.append(dict(op='e_att', **att(r, big), **({'nulp': True} if r.random() < .1 else {})))
        elif k < .81: ops.append(dict(op='e_attrep', sel=r.choice([0, 1, 2, -1]), **att(r, big)))
        elif k < .88: ops.append(dict(op='e_attrem', sel=r.choice([0, 1, -1])))
        elif k < .95: ops.append(dict(op='e_meta', **meta(r, big)))
        else: ops.append(dict(op='e_dump'))
    return ops

def stretch(r): return dict(op='stretch', bits=r.choice([31, 32, 32, 33, 40]), add=r.choice([0, 0, 1, 100, 12345]))

def editor_script(r, big=False, extra=()):
    style = r.choice(['any', 'CZ', 'C', 'SCT', 'S', 'none']); its = []
    if r.random() < .6:
        s = writer_script(r, big); ops = s['ops']
        if r.random() < .5: its = [o['it'] for o in ops if o['op'] == 'w_add'][-6:]
    else: ops = []
    for _ in range(r.choice([1, 2, 2, 3])):
        if r.random() < .2 and ops: ops += [stretch(r), dict(op='dump'), dict(op='layout')]       # the document now lies beyond 2 or 4 GiB
        ops += [dict(op='e_new'), dict(op='e_create', g=guid(r), force=r.random() < .2)]
        ops += editor_ops(r, r.choice([0, 1, 3, 6, 12]), style, its, big)
        if r.random() < .5: ops.append(dict(op='e_dump'))
        ops += [dict(op='e_close'), dict(op='dump'), dict(op='layout')] + list(extra)
        if r.random() < .2:   # close is a commit: go on and close again
            ops += editor_ops(r, r.choice([0, 1, 3]), style, its, big) + [dict(op='e_close'), dict(op='dump'), dict(op='layout')]
        ops.append(dict(op='e_drop'))
    return dict(fam='doc', ops=ops)

def crowd_script(r, ed=True, n=None):
    """hundreds of subblocks and attachments in one document"""
    n = n or r.choice([129, 200, 257, 300, 520]); nz = r.choice([7, 16, 300])
    ops = [dict(op='w_new', dup=False), dict(op='w_create', g=guid(r), **({'rs': r.choice([1, n, 20000])} if r.random() < .5 else {}))]
    for k in range(n):
        it = dict(c=[['C', k % 2], ['Z', (k // 2) % nz]], hm=True, m=k // (2 * nz), x=4 * (k % 19), y=3 * (k // 19), pt=k % 2, cmp=0, pyr=0, pw=4, ph=3, w=4, h=3, via='mem', d=dict(len=r.choice([0, 1, 12, 40]), seed=k + 1))
        ops.append(dict(op='w_add', it=it))
    for k in range(r.choice([0, 3, 140])): ops.append(dict(op='w_att', g=k + 1, ft='CZI', nm='n%d' % k, d=dict(len=r.choice([1, 30]), seed=k + 5)))
    ops += [dict(op='w_meta', **meta(r)), dict(op='w_stats'), dict(op='w_close'), dict(op='dump'), dict(op='layout')]
    if ed:
        ops += [dict(op='e_new'), dict(op='e_create', g=guid(r))] + editor_ops(r, 12, 'CZT', []) + [dict(op='e_close'), dict(op='dump'), dict(op='layout'), dict(op='e_drop')]
    ops += [dict(op='r_new'), dict(op='r_open')] + queries(r, 'r', 8, [it]) + [dict(op='r_close')]
    return dict(fam='doc', ops=ops)

def small_writer(r, maxitems=4, big=False):
    """one document, one writer"""
    while True:
        s = writer_script(r, big)
        if sum(o['op'] == 'w_create' for o in s['ops']) == 1 and sum(o['op'] in ('w_add', 'w_att') for o in s['ops']) <= maxitems: return s

def prefix_script(r, big=False, cap=200):
    s = small_writer(r, r.choice([2, 4, 6, 9]), big)
    i = [k for k, o in enumerate(s['ops']) if o['op'] == 'w_create'][0]
    s['ops'].insert(i, dict(op='log')); j = [k for k, o in enumerate(s['ops']) if o['op'] == 'w_close'][0]
    s['ops'] = s['ops'][:j + 1] + [dict(op='prefixes', torn=1, max=cap)]
    return s

def with_prefixes(s, cap):
    ops = s['ops']; i = [k for k, o in enumerate(ops) if o['op'] == 'w_create'][0]; j = [k for k, o in enumerate(ops) if o['op'] == 'w_close'][0]
    return dict(fam='doc', ops=ops[:i] + [dict(op='log')] + ops[i:j + 1] + [dict(op='prefixes', torn=1, max=cap)])

def fault(r, k=None):
    kind = r.choice([1, 2]); k = r.choice([0, 0, 0, 1, 1, 2, 3, 4, 6]) if k is None else k
    x = r.random()
    if x < .75: return dict(op='fault', w=[[k, kind]])
    if x < .85: return dict(op='fault', wall=k)
    return dict(op='fault', w=[[k, kind], [k + 1, 3 - kind]])

def fault_script(r, big=False):
    s = small_writer(r, 9, big); ops = s['ops']; out = []; ops = [o for o in ops if o['op'] not in ('layout', 'w_stats', 'w_prep')]
    ed = r.random() < .5
    if ed:
        ops = ops + [dict(op='e_new'), dict(op='e_create', g=7, force=r.random() < .2)] + editor_ops(r, r.choice([2, 4, 8]), r.choice(['CZ', 'C', 'any']), [], big) + [dict(op='e_close'), dict(op='dump')]
    tgt = [k for k, o in enumerate(ops) if o['op'][:2] in ('w_', 'e_') and o['op'] not in ('w_new', 'e_new', 'e_dump') and (not ed or o['op'][0] == 'e' or r.random() < .1)]
    hit = set(r.sample(tgt, min(len(tgt), r.choice([1, 1, 2, 3])))); rd = r.random() < .4
    for k, o in enumerate(ops):
        if k in hit:
            f = fault(r)
            if o['op'] == 'e_create': f = dict(op='fault', rd=[[r.choice([0, 1, 2, 3, 4]), 1]]) if r.random() < .6 else dict(op='fault', w=[[r.choice([0, 1]), r.choice([1, 2])]])
            elif o['op'][0] == 'e' and r.random() < .25: f = dict(op='fault', rd=[[0, r.choice([1, 2])]])
            out += [f, o, dict(op='fault')]
            if o['op'] in ('w_create', 'w_close', 'e_create', 'e_close'): out += [o]     # try again once the medium recovered
        elif o['op'] == 'dump' and rd:
            out += [o, dict(op='fault', rd=[[r.randrange(0, 24), r.choice([1, 2])]]), o, dict(op='fault')]
        else: out.append(o)
    return dict(fam='doc', ops=out)

def queries(r, pre, n, its):
    ops = [dict(op=pre + '_q', f='list')]
    for _ in range(n):
        k = r.random()
        it = r.choice(its) if its else item(r, 'any')
        if k < .55:
            q = dict(op=pre + '_q', f='subset')
            if r.random() < .6:
                c = [x for x in it['c'] if r.random() < .7]; c = [[d, v + r.choice([0, 0, 0, 1])] for d, v in c]
                if r.random() < .15: c = c + [x for x in coord(r, 'any') if x[0] not in [y[0] for y in c]]
                q['c'] = c
            if r.random() < .6:
                if r.random() < .5: q['roi'] = [it['x'] + r.choice([-3, -1, 0, 1]), it['y'] + r.choice([-2, 0, 1]), r.choice([1, 2, 5, 40]), r.choice([1, 2, 5, 40])]
                elif r.random() < .5: q['roi'] = [it['x'] - r.choice([1, 2, 3]), it['y'], r.choice([1, 2, 3]), it['h']]          # touching on the left
                else: q['roi'] = [it['x'] + it['w'], it['y'] + r.choice([0, -5]), 5, 30]                                            # touching on the right
            q['l0'] = r.random() < .35
            if r.random() < .25: q['stop'] = r.choice([0, 1, 2])
            ops.append(q)
        elif k < .62: ops.append(dict(op=pre + '_q', f='enumstop', stop=r.choice([0, 1, 3])))
        elif k < .75:
            q = dict(op=pre + '_q', f='attsubset')
            if r.random() < .6: q['ft'] = r.choice(FTS)
            if r.random() < .6: q['nm'] = r.choice(NAMES + ['x' * 78, 'x' * 81])
            if r.random() < .2: q['stop'] = r.choice([0, 1])
            ops.append(q)
        elif k < .85: ops.append(dict(op=pre + '_q', f='index', k=r.choice([0, 1, 2, 3, 7, 20, -1, -100, 1000000])))
        elif k < .93: ops.append(dict(op=pre + '_q', f='attindex', k=r.choice([0, 1, 2, 3, 7, -1, -5, 1000])))
        else: ops.append(dict(op=pre + '_q', f='arb', c=r.choice([-1, 0, 1, 2, 3, 7])))
    return ops

def query_script(r, big=False):
    s = small_writer(r, 30); ops = s['ops']; its = [o['it'] for o in ops if o['op'] == 'w_add']
    if r.random() < .25:
        ops += [dict(op='e_new'), dict(op='e_create', g=3)] + editor_ops(r, r.choice([2, 5, 9]), 'any', []) + queries(r, 'e', r.choice([4, 10]), its) + [dict(op='e_close'), dict(op='dump'), dict(op='e_drop')]
    if r.random() < .15: ops.append(stretch(r))
    ops += [dict(op='r_new'), dict(op='r_open')] + queries(r, 'r', r.choice([6, 15]), its) + [dict(op='r_close')]
    return dict(fam='doc', ops=ops)

def frame_script(r):
    s = small_writer(r, 12); ops = s['ops']
    def q(pre):
        o = [dict(op=pre + '_q', f='list')]
        for _ in range(r.choice([4, 10])):
            f = r.choice(['tp', 'tr']) if pre == 'r' else 'tp'
            o.append(dict(op=pre + '_q', f=f, sf=r.choice([0, 1, 2, 3, 2, 3, 3, 2, 255]), df=r.choice([0, 1, 2, 3, 2, 3, 2, 3, 255]), v=[r.choice([0, 1, -5, 100, 12345]), r.choice([0, -3, 77, 31])] + ([r.choice([0, 1, 10]), r.choice([1, 20])] if f == 'tr' else [])))
        return o
    for _ in range(2): ops += [dict(op='r_new'), dict(op='r_open', frame=r.choice([0, 1, 2, 3, 3]))] + q('r') + [dict(op='r_close')]
    if r.random() < .4: ops += [dict(op='e_new'), dict(op='e_create', g=3)] + editor_ops(r, r.choice([0, 3]), 'any', []) + q('e') + [dict(op='e_close'), dict(op='e_drop')]
    return dict(fam='doc', ops=ops)

CALLS = ['enum', 'subset', 'read', 'info', 'arb', 'stats', 'pyr', 'attcnt', 'attinfo', 'attenum', 'attsub', 'attread', 'hdr', 'meta']
def life_script(r):
    ops = [dict(op='w_new', dup=False), dict(op='r_new')]
    st = 'init'
    def junk_w(n):
        for _ in range(n):
            k = r.choice(['w_add', 'w_att', 'w_meta', 'w_stats', 'w_prep', 'w_close'])
            ops.append(dict(op=k, **(dict(it=item(r, 'CZ')) if k == 'w_add' else att(r) if k == 'w_att' else meta(r) if k == 'w_meta' else {})))
    def call(pre, n):
        for _ in range(n): ops.append(dict(op=pre + '_call', f=r.choice(CALLS)))
    if r.random() < .5: junk_w(2)
    if r.random() < .3: call('r', 2)
    if r.random() < .4: ops.append(dict(op='r_open'))                 # empty file: must fail
    for _ in range(r.choice([1, 2])):
        if r.random() < .4:                                           # create that fails
            ops.extend([dict(op='fault', w=[[r.choice([0, 0, 1, 2]), r.choice([1, 2])]]), dict(op='w_create', g=1, **({'rm': 300, 'rs': 3} if r.random() < .6 else {})), dict(op='fault')])
            if r.random() < .5: junk_w(2)
            if r.random() < .3: ops.append(dict(op='w_new', dup=False))
            elif False: pass
        ops.append(dict(op='w_create_if', g=r.randrange(1, 99)) if False else dict(op='w_create', g=r.randrange(1, 99)))
        for _ in range(r.choice([0, 2, 4])):
            k = r.random()
            if k < .2: ops.append(dict(op='w_create', g=5))
            elif k < .7: ops.append(dict(op='w_add', it=item(r, 'CZ')))
            elif k < .8: ops.append(dict(op='w_att', **att(r)))
            elif k < .9: ops.append(dict(op='w_stats'))
            else: ops.append(dict(op='w_prep'))
        ops += [dict(op='w_meta', **meta(r)), dict(op='w_close'), dict(op='dump')]
        if r.random() < .6: junk_w(2)
        ops.append(dict(op='dump'))
        for _ in range(r.choice([0, 1, 2])):                           # reader life
            if r.random() < .5: call('r', 2)
            if r.random() < .5: ops.extend([dict(op='fault', rd=[[r.choice([0, 1, 2, 3]), r.choice([1, 2])]]), dict(op='r_open_f') if False else dict(op='r_open'), dict(op='fault')]); 
            ops.append(dict(op='r_close_any') if False else dict(op='r_close'))
            ops.append(dict(op='r_open')); call('r', 3)
            if r.random() < .3: ops.append(dict(op='r_open'))
            if r.random() < .3: ops.append(dict(op='r_q', f='list'))
            ops.append(dict(op='r_close'))
            if r.random() < .5: ops.append(dict(op='r_close'))
            call('r', r.choice([0, 2]))
        if r.random() < .6:                                            # editor life
            ops.append(dict(op='e_new'))
            if r.random() < .5: ops.extend(editor_ops(r, 2, 'CZ', [])); call('e', 2)
            if r.random() < .3: ops.append(dict(op='e_close'))
            if r.random() < .4: ops.extend([dict(op='fault', rd=[[r.choice([1, 2, 3, 4]), 1]]), dict(op='e_create', g=4), dict(op='fault'), dict(op='e_dump')])
            ops.append(dict(op='e_create', g=4)); call('e', 2)
            if r.random() < .4: ops.append(dict(op='e_create', g=9))
            ops.extend(editor_ops(r, r.choice([0, 3]), 'CZ', []))
            ops.extend([dict(op='e_dump'), dict(op='e_close'), dict(op='dump')])
            if r.random() < .3: ops.extend([dict(op='e_create', g=9), dict(op='e_close'), dict(op='dump')])
            ops.append(dict(op='e_drop'))
        ops.append(dict(op='newfile'))
    return dict(fam='doc', ops=ops)
