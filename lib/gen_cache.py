"""Episodes for the subblock cache (P15): random long sequential histories, and concurrent ones."""
INF = [-1, -1]
def items(r, big=True):
    out = []
    for _ in range(r.randrange(2, 6)):
        m = r.random() < .3
        it = dict(w=r.randrange(1, 40), h=r.randrange(1, 40), pt=r.choice([0, 1, 2, 3, 4, 9]), mw=r.randrange(1, 40) if m else 0, mh=r.randrange(1, 20) if m else 0)
        if big and r.random() < .2: it.update(w=1048576 * r.randrange(1, 4), h=r.randrange(1, 5000))
        out.append(it)
    return out
def size(it):
    n = it['w'] * it['h'] * {0: 1, 1: 2, 2: 4, 3: 3, 4: 6, 9: 4}[it['pt']] + (it['mw'] + 7) // 8 * it['mh']
    return n
def op(r, its, keys, q=None):
    o = q or r.choice(['add', 'add', 'add', 'get', 'get', 'get', 'prune', 'stat'])
    if o == 'add': return dict(o=o, k=r.choice(keys), it=r.randrange(len(its)) + 1)
    if o == 'get': return dict(o=o, k=r.choice(keys))
    if o == 'stat': return dict(o=o, m=r.choice([1, 2, 3, 3, 3, 0]))
    mem = INF
    if r.random() < .6:
        n = sum(size(r.choice(its)) for _ in range(r.randrange(1, 5))) + r.choice([0, 0, 0, -1, 1])
        mem = [n >> 20, n & 0xfffff]
    return dict(o=o, mem=mem, cnt=r.choice([-1, -1, 0, 1, 2, 3, 5]))
def seq(r):
    its = items(r); keys = r.sample(range(0, 8), r.randrange(1, 8))
    if r.random() < .1: keys = [2147483647, 5, -3, 100000]
    return dict(fam='cache', items=its, seq=[op(r, its, keys) for _ in range(r.choice([10, 30, 60]))], probe=True)
def conc(r, n, noise=None):
    its = items(r); keys = r.sample(range(0, 6), r.randrange(1, 4)); nt = r.choice([2, 3, 3, 4])
    mix = r.choice([None, ['add', 'stat', 'stat'], ['add', 'get', 'prune'], ['add', 'get'], ['prune', 'add', 'stat']])
    th = [[op(r, its, keys, r.choice(mix) if mix else None) for _ in range(r.choice([2, 3, 4, 5]) if nt < 4 else 3)] for _ in range(nt)]
    post = [dict(o='stat', m=3)]
    for k in range(3, -1, -1):
        post += [dict(o='prune', mem=INF, cnt=k), dict(o='stat', m=3)]
        if k in (1, 2) and r.random() < .5: post += [dict(o='get', k=x) for x in keys]
    return dict(fam='cache', items=its, seq=[op(r, its, keys, 'add') for _ in range(r.randrange(4))], threads=th, post=post, noise=r.choice([1, 2, 4, 10, 0]) if noise is None else noise, ns=n)
