import gen_meta
def run(c):
    n = 12000 if c.thorough() else 900
    c.conform('MetaTrace', [gen_meta.script(c.rng, c.rng.choice([6, 15, 25, 25])) for _ in range(n)], chunk=150)
    return c.finish()
