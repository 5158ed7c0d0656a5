import gen_parse
def run(c):
    n = 30000 if c.thorough() else 3000
    c.conform('ParseTrace', [gen_parse.corrupt(c.rng) for _ in range(n)], chunk=1500)
    return c.finish()
