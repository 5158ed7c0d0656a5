import gen
def run(c):
    th = c.thorough()
    c.conform('DocTrace', [gen.fault_script(c.rng, big=k % 4 == 0) for k in range(12000 if th else 2000)], chunk=1500)
    return c.finish()
