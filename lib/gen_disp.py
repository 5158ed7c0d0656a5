"""Look-up tables, splines, display settings (P26)."""
def bw(r):
    k = r.random()
    if k < .25: return 0, 1024
    if k < .85:
        a, b = sorted([r.randrange(0, 1025), r.randrange(0, 1025)]); return a, b
    if k < .93: return r.randrange(0, 1025), r.randrange(0, 1025)
    return r.choice([-100, 0, 300, 1024, 1100]), r.choice([-50, 0, 700, 1024, 1300])
def pts(r, n=None):
    n = n if n is not None else r.choice([0, 1, 2, 2, 3, 4])
    xs = sorted(r.sample(range(20, 980, 15), n)) if r.random() < .9 else sorted(r.sample(range(1, 999), n))
    return [[x, r.choice([x, r.randrange(-200, 1300), r.randrange(0, 1001)])] for x in xs]
def clampi(v, n): return max(0, min(n, v))
def lohi(n, bp, wp):
    lo = clampi(n * bp // 1024 if bp > 0 else 0, n); hi = clampi(n * wp // 1024 if wp > 0 else 0, n)
    return lo, max(lo, hi)
def chan(r):
    return dict(en=r.random() < .7, wt=r.choice([64, 0, 32, 128, 1, 640, r.randrange(1000)]), tint=r.random() < .5, col=[r.choice([0, 255, 16, r.randrange(256)]) for _ in range(3)], bp=r.choice([0, 0, 250, 999, 1, r.randrange(1000)]), wp=r.choice([1000, 1000, 500, 0, r.randrange(1001)]), mode=r.choice([0, 1, 2]), gm=r.choice([100, 45, 50, 220, 10, 300, r.randrange(10, 400)]), pts=pts(r, r.choice([1, 2, 3])), pt=r.choice([0, 0, 3, 0, 3, 1, 9, 2]) if r.random() < .3 else r.choice([0, 3]))
def op(r):
    k = r.random()
    if k < .45:
        n = r.choice([1, 2, 3, 5, 16, 50, 100, 121, 128]); bp, wp = bw(r); w16 = r.random() < .35
        if not w16: n = r.choice([n, n, 200, 256])
        return dict(o='gamma', n=n, bp=bp, wp=wp, gm=r.choice([100, 100, 200, 50, 45, 10, 99, 101, 150, 300, 70, r.randrange(10, 500)]), w16=w16)
    if k < .6: return dict(o='spline', pts=pts(r))
    if k < .85:
        n = r.choice([1, 2, 3, 8, 20, 64]); bp, wp = bw(r); lo, hi = lohi(n, bp, wp)
        return dict(o='slut', pts=pts(r), n=n, bp=bp, wp=wp, lo=lo, m=hi - lo)
    return dict(o='ds', ch=[chan(r) for _ in range(r.choice([1, 1, 2, 3]))], twice=r.random() < .3, again=r.random() < .3)
def script(r): return dict(fam='disp', ops=[op(r) for _ in range(10)])
