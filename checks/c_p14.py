import gen_comp, json, os
def run(c):
    n = 6000 if c.thorough() else 2500
    scripts = [json.load(open(os.path.join(os.path.dirname(__file__), '..', 'findings', 'P14-edge.json')))]
    scripts += [gen_comp.script(c.rng, c.prop) for k in range(n)]
    c.conform('CompTrace', scripts, chunk=600)
    return c.finish()
