import gen_rdconc
def run(c):
    th = c.thorough()
    c.model_check('ReaderMC')
    n = 16000 if th else 3000
    c.conform_lin('ReaderLin', [gen_rdconc.script(c.rng, k) for k in range(n)], chunk=3000)
    c.conform_lin('ReaderLin', [gen_rdconc.script(c.rng, k, 2) for k in range(n // 4)], san='tsan', chunk=3000)
    return c.finish()
