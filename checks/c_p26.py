import gen_disp
def run(c):
    n = 20000 if c.thorough() else 1500
    c.conform('DisplayTrace', [gen_disp.script(c.rng) for _ in range(n)], chunk=800)
    return c.finish()
