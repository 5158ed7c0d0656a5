import gen_comp
def run(c):
    n = 6000 if c.thorough() else 2500
    scripts = [gen_comp.script(c.rng, c.prop) for k in range(n)]
    c.conform('CompTrace', scripts, chunk=600)
    return c.finish()
