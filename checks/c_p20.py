import gen_multi
def run(c):
    n = 25000 if c.thorough() else 1500
    c.conform('MultiTrace', [gen_multi.script(c.rng) for _ in range(n)], chunk=800)
    return c.finish()
