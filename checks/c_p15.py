import gen_cache
def run(c):
    th = c.thorough()
    c.model_check('CacheMC', 'CacheMC.cfg' if th else 'CacheMCq.cfg')
    a = c.generate('CacheGen')
    if not th: a = c.rng.sample(a, 3000)
    b = c.generate('CacheGen', 'CacheGenRich.cfg', args=['-simulate', 'num=%d' % (3000 if th else 300), '-depth', '19'], workers=1)
    b = c.rng.sample(b, min(len(b), 8000 if th else 1000))
    s = [gen_cache.seq(c.rng) for _ in range(4000 if th else 500)]
    c.conform('CacheTrace', a + b + s, chunk=4000)
    n = 40000 if th else 3000
    c.conform_lin('CacheLin', [gen_cache.conc(c.rng, k) for k in range(n)], chunk=3000)
    c.conform_lin('CacheLin', [gen_cache.conc(c.rng, k, 2) for k in range(n // 8)], san='tsan', chunk=2000)
    return c.finish()
