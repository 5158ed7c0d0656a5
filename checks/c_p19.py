import gen_bmp
def run(c):
    n = 20000 if c.thorough() else 2400
    c.conform('BmpTrace', [gen_bmp.script(c.rng) for _ in range(n)], chunk=1200)
    return c.finish()
