"""Concurrent use of one reader (P16)."""
import gen_comp
def script(r, n, noise=None):
    d, g = gen_comp.doc(r, 'P14'); d['tiles'] = d['tiles'][:14]; nt = len(d['tiles'])
    chans = list(range(g['nc']))
    ops = []
    def op():
        k = r.choice(['sb'] * 4 + ['bmp'] * 4 + ['hold'] * 3 + ['info', 'arb', 'stat', 'pyr', 'enum', 'enumx', 'sub', 'sub', 'att', 'att', 'attn', 'atti', 'atte', 'atts', 'meta', 'hdr', 'tp'] + ['get'] * 5)
        q = dict(o=k, i=r.randrange(-1, nt + 1))
        if k in ('att', 'atti'): q['i'] = r.randrange(0, 4)
        if k == 'arb': q['i'] = r.choice(chans)
        if k == 'sub':
            q['c'] = [['C', r.choice(chans)]] if g['hasC'] and r.random() < .7 else []
            if r.random() < .5: t = r.choice(d['tiles']); q['roi'] = [t['x'], t['y'], 5, 5]
            q['l0'] = r.random() < .4
        if k == 'get':
            c = gen_comp.call(r, d, g, r.choice('tps'), 'P11')
            c.pop('nop', None); c['own'] = False; c['dpt'] = 0 if c.get('dpt', -1) in (-1, 2, 9) else c['dpt']; c['bg'] = [0, 1, 0]
            if r.random() < .5: c['cache'] = r.randrange(2); c['only'] = r.random() < .5
            q['call'] = c
        return q
    no = r.randrange(3, 9); ops = [op() for _ in range(no)]
    hot = r.choice([None, None, 'sb', 'bmp', 'pyr', 'att', 'meta'])
    if hot: ops[0] = dict(o=hot, i=r.randrange(nt) if hot in ('sb', 'bmp') else 1)
    ops.append(dict(o='close'))
    T = r.choice([2, 3, 4, 6]); th = [[(0 if hot and r.random() < .4 else r.randrange(no)) for _ in range(r.choice([2, 4, 8]))] for _ in range(T)]
    if r.random() < .7:
        t = r.randrange(T); th[t].insert(r.randrange(len(th[t]) + 1), no)
    return dict(fam='rdconc', tiles=d['tiles'], natt=r.choice([0, 2, 3]), meta=r.random() < .8, ops=ops, threads=th, stream=r.choice([0, 0, 0, 0, 1, 2, 3]), noise=r.choice([0, 1, 3, 10]) if noise is None else noise, ns=n)
