import gen
def run(c):
    th = c.thorough()
    g = c.generate('DocGen', 'DocGen_editor3.cfg')
    c.conform('DocTrace', g if th else c.rng.sample(g, 1000), chunk=2500)
    c.conform('DocTrace', [gen.editor_script(c.rng, big=k % 3 == 0) for k in range(12000 if th else 1500)], chunk=1500)
    c.conform('DocTrace', [gen.writer_script(c.rng) for k in range(6000 if th else 800)], chunk=1500)
    c.conform('DocTrace', [gen.crowd_script(c.rng, True, c.rng.choice([129, 160, 257])) for k in range(16 if th else 2)], chunk=8)
    return c.finish()
