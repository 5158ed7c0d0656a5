import gen_info
def run(c):
    n = 6000 if c.thorough() else 700
    c.conform('DocInfoTrace', gen_info.systematic(c.rng) * (4 if c.thorough() else 1) + [gen_info.script(c.rng) for _ in range(n)] + [gen_info.cscript(c.rng) for _ in range(n // 7)], chunk=400)
    return c.finish()
