import gen
def run(c):
    th = c.thorough()
    c.conform('DocTrace', [gen.query_script(c.rng) for k in range(12000 if th else 1500)], chunk=1500)
    c.conform('DocTrace', [gen.crowd_script(c.rng, False) for k in range(40 if th else 4)], chunk=8)
    return c.finish()
