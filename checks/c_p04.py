import gen
def run(c):
    th = c.thorough()
    c.model_check('CziFile', 'CziFile_deep.cfg' if th else 'CziFile.cfg')
    for b in ('headerfirst', 'endofsubblocks', 'nofit'): c.must_reject('CziFile', 'CziFile_%s.cfg' % b)
    g = c.generate('DocGen', 'DocGen_writer3.cfg' if th else 'DocGen_writer2.cfg')
    c.conform('DocTrace', [gen.with_prefixes(x, 400) for x in (c.rng.sample(g, 3000) if th else c.rng.sample(g, 200))], chunk=120)
    c.conform('DocTrace', [gen.prefix_script(c.rng, cap=400 if th else 60) for k in range(1500 if th else 200)], chunk=120)
    return c.finish()
