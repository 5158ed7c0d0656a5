import gen
def run(c):
    th = c.thorough()
    c.model_check('CziFile', 'CziFile_deep.cfg' if th else 'CziFile.cfg')
    for b in ('headerfirst', 'endofsubblocks', 'nofit'): c.must_reject('CziFile', 'CziFile_%s.cfg' % b)
    g = c.generate('DocGen', 'DocGen_editor3.cfg')
    c.conform('DocTrace', g if th else c.rng.sample(g, 2000), chunk=2500)
    c.conform('DocTrace', [gen.editor_script(c.rng, big=k % 3 == 0) for k in range(12000 if th else 1500)], chunk=1500)
    c.conform('DocTrace', [gen.crowd_script(c.rng, True) for k in range(40 if th else 4)], chunk=8)
    return c.finish()
