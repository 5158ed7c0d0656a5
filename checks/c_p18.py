import gen_text
def run(c):
    n = 30000 if c.thorough() else 2500
    c.conform('TextTrace', [gen_text.script(c.rng) for _ in range(n)], chunk=1200)
    return c.finish()
