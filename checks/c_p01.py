import gen
def run(c):
    th = c.thorough()
    g = c.generate('DocGen', 'DocGen_writer3.cfg')
    c.conform('DocTrace', g if th else c.rng.sample(g, 1500), chunk=2500)
    c.conform('DocTrace', [gen.writer_script(c.rng, big=k % 3 == 0) for k in range(12000 if th else 1500)], chunk=1500)
    c.conform('DocTrace', [gen.crowd_script(c.rng, False) for k in range(40 if th else 4)], chunk=8)
    return c.finish()
