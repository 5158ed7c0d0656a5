import gen
def run(c):
    th = c.thorough()
    c.conform('DocTrace', [gen.frame_script(c.rng) for k in range(12000 if th else 1500)], chunk=1500)
    return c.finish()
