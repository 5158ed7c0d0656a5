import gen
def run(c):
    th = c.thorough()
    g = c.generate('DocGen', 'DocGen_life4.cfg' if th else 'DocGen_life3.cfg')
    c.conform('DocTrace', c.rng.sample(g, 40000) if th else g, chunk=6000)
    c.conform('DocTrace', [gen.life_script(c.rng) for k in range(12000 if th else 1200)], chunk=1500)
    return c.finish()
