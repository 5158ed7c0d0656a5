import gen_codec
def run(c):
    c.model_check('CodecMC')
    n = 20000 if c.thorough() else 6000
    c.conform('CodecTrace', [gen_codec.script(c.rng) for _ in range(n)], chunk=1500)
    return c.finish()
