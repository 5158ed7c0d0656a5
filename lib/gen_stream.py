"""Stream implementations (P24)."""
import json
BASES = [0, 0, 0, 0, 4090, 65530, (1 << 31) - 20, (1 << 32) - 20, (1 << 32) + 4000, 5 << 30]
def P(v): return [v >> 20, v & 1048575]
def bs(r, n): return [r.randrange(256) for _ in range(n)]
INK = ['pread', 'crt', 'crtw', 'default', 'defaultw', 'create']
MODES = ['f'] * 6 + ['chunked', 'whole', 'whole', 'more', 'cut', 'e404', 'e500', 'e403', 'refused', 'badurl', 'rd/f', 'rd/rd/f', 'rd/chunked', 'rd/e404']
def bag(r):
    p, valid, ua, ck = {}, True, '', ''
    if r.random() < .5: ua = p['CurlHttp_UserAgent'] = r.choice(['agent', 'a b/1.0', 'q"x'])
    if r.random() < .5: ck = p['CurlHttp_Cookie'] = r.choice(['k=v', 'a=1; b=2'])
    if r.random() < .5: p['CurlHttp_Timeout'] = 60
    if r.random() < .3: p['CurlHttp_FollowLocation'] = r.random() < .5
    if r.random() < .2: p['CurlHttp_SslVerifyPeer'] = False
    if r.random() < .4:
        valid = False; k, v = r.choice([('CurlHttp_UserAgent', 5), ('CurlHttp_Timeout', 'x'), ('CurlHttp_Timeout', 1.5), ('CurlHttp_FollowLocation', 1), ('CurlHttp_Timeout', True), ('NoSuchOption', 'x'), ('CurlHttp_useragent', 'x'), ('CurlHttp_Cookie', None), ('CurlHttp_ConnectTimeout', 1 << 40)]); p[k] = v
    t = json.dumps(p)
    if r.random() < .1: t, valid = r.choice([t[:-1], '[]', '5', 'x', '{} x']), False
    return dict(o='bag', bag=t, valid=valid, xua=ua, xck=ck)
def web(r, conc=False):
    n = r.choice([1, 5, 20, 22, 23, 24, 40, 100]); base = r.choice([0, 0, 0, 0, 4090, (1 << 32) - 20, 5 << 30]); w = [dict(p=P(0), d=bs(r, n))] + ([dict(p=P(base), d=bs(r, n))] if base else []); end = base + n
    ops = [dict(o='file', ex=conc or r.random() < .95, w=w)]
    def pos(): return P(max(0, r.choice([0, 0, base, end - 1, end, end - r.randrange(n + 1), base + r.randrange(n + 3), r.randrange(n + 5), end + (1 << 32)])))
    def ln(): return r.choice([0, 1, 2, 7, 10, n, n, n + 1, 100, 22, 23, 300])
    if conc:
        ops.append(dict(o='open', h=0, kind='curl', mode=r.choice(['f', 'f', 'chunked', 'whole'])))
        ops.append(dict(o='conc', h=0, t=[[dict(o='read', p=pos(), n=ln()) for _ in range(6)] for _ in range(3)], seed=r.randrange(1 << 20))); return dict(fam='stream', ops=ops, name=r.randrange(5))
    live = []
    for h in range(r.choice([1, 1, 2])):
        m = r.choice(MODES); op = dict(o='open', h=h, kind='curl', mode=m)
        if r.random() < .4: op['ua'] = r.choice(['agent', 'a b/1.0'])
        if r.random() < .3: op['ck'] = r.choice(['k=v', 'a=1; b=2'])
        if m.startswith('rd') and r.random() < .7:
            op['follow'] = True
            if r.random() < .4: op['redirs'] = r.choice([0, 1, 2, 5])
        if r.random() < .04: op['wrong'] = True
        if r.random() < .2: op['wide'] = True
        ops.append(op)
        if m != 'badurl' and not op.get('wrong'): live.append(h)
    for _ in range(r.choice([3, 8])):
        x = r.random()
        if x < .06: ops.append(bag(r))
        elif live:
            op = dict(o='read', h=r.choice(live), p=pos(), n=ln())
            if r.random() < .03: op['huge'] = True; op['p'] = P(r.choice([0, 5]))
            if r.random() < .06: op['nc'] = True
            ops.append(op)
    return dict(fam='stream', ops=ops, name=r.randrange(5))
def script(r, conc=False):
    ops = []; pts = []
    last = [0]
    def pos():
        x = pos0(); last[0] = x; return x
    def pos0():
        if r.random() < .12: return max(0, last[0] + r.choice([0, 1, 2, 7, 10, 30]) + r.choice([0, 1 << 32, -(1 << 32), 1 << 31]))     # sequential, also modulo 2^32
        if pts and r.random() < .75:
            b, n = r.choice(pts); return max(0, b + r.randrange(-4, n + 6))
        return r.choice(BASES) + r.randrange(30)
    ex = conc or r.random() < .75
    w = []
    if ex:
        for _ in range(r.choice([0, 1, 1, 2, 3]) if not conc else 2):
            n = r.choice([1, 5, 20, 60]); p = r.choice(BASES) + r.randrange(20); w.append(dict(p=P(p), d=bs(r, n))); pts.append((p, n))
            if r.random() < .25: q = p + (1 << 32); w.append(dict(p=P(q), d=bs(r, n))); pts.append((q, n))
    ops.append(dict(o='file', ex=ex, w=w))
    if r.random() < .02: ops.append(dict(o='factory'))
    if conc:
        kind = r.choice(INK + ['mem', 'att'] + ['io']); d = bs(r, 50); ops.append(dict(o='open', h=0, kind=kind, d=d))
        if kind in ('mem', 'att'): pts[:] = [(0, 50)]
        t = [[dict(o='read', p=P(pos()), n=r.choice([1, 3, 10, 40])) for _ in range(r.choice([5, 15]))] for _ in range(r.choice([2, 3, 4]))]
        ops.append(dict(o='conc', h=0, t=t, seed=r.randrange(1 << 20))); return dict(fam='stream', ops=ops, name=r.randrange(5))
    live = {}; hn = 0
    crt = lambda: any(k in ('outcrt', 'iocrt') for k in live.values())
    for _ in range(r.choice([4, 8, 14])):
        x = r.random()
        if x < .3 or not live:
            hn += 1; c = [k for k in INK + ['mem', 'att'] if not crt()]
            buffered = any(k in ('crt', 'crtw', 'default', 'defaultw', 'create') for k in live.values())
            if not live: c += ['out', 'out8', 'outcrt', 'io', 'iocrt', 'io'] * 2
            elif not buffered and not crt(): c += ['io', 'out']
            c = [k for k in c if k] or ['mem']
            k = r.choice(c); op = dict(o='open', h=hn, kind=k)
            if k in ('mem', 'att'): n = r.choice([0, 1, 9, 40]); op['d'] = bs(r, n); mp = (0, n); pts.append(mp)
            if k.startswith('out'): op['over'] = r.random() < .5
            if k not in ('mem', 'att') and r.random() < .04: op['dir'] = True
            ops.append(op); live[hn] = k
        elif x < .6:
            h = r.choice(list(live)); k = live[h]
            op = dict(o='read', h=h, p=P(pos()), n=r.choice([0, 1, 2, 7, 30, 100]))
            if r.random() < .05: op['huge'] = True; op['p'] = P(r.choice([0, 5]))
            if r.random() < .1: op['nc'] = True
            ops.append(op)
        elif x < .85:
            h = r.choice(list(live)); k = live[h]
            # no writes to the file while a stream with a read buffer of its own is open on it
            if any(q in ('crt', 'crtw', 'default', 'defaultw', 'create') for q in live.values()): continue
            p = pos(); n = r.choice([0, 1, 3, 10, 40, 40]); op = dict(o='write', h=h, p=P(p), d=bs(r, n))
            if k in ('io', 'out', 'out8') and n and r.random() < .12: op['lim'] = P(max(0, p + r.randrange(-2, n + 3)))
            elif r.random() < .1: op['nc'] = True
            ops.append(op); pts.append((p, n))
        elif x < .93:
            h = r.choice(list(live)); ops.append(dict(o='close', h=h)); del live[h]
        elif not crt(): ops.append(dict(o='raw'))
    for h in list(live): ops.append(dict(o='close', h=h))
    ops.append(dict(o='raw'))
    return dict(fam='stream', ops=ops, name=r.randrange(5))
