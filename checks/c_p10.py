import gen_parse
def run(c):
    c.model_check('ParseMC')
    n = 20000 if c.thorough() else 1300
    ds = c.generate('ParseMC', 'ParseGen3.cfg' if c.thorough() else 'ParseGen2.cfg')
    c.conform('ParseTrace', gen_parse.from_model(c.rng, ds), chunk=2500)
    c.conform('ParseTrace', [gen_parse.discrepancy(c.rng, k) for k in range(6400 if c.thorough() else 800)], chunk=1300)
    c.conform('ParseTrace', [gen_parse.strict(c.rng) for _ in range(n)], chunk=1300)
    return c.finish()
