import gen_capi, gen_info
def run(c):
    n = 12000 if c.thorough() else 1500
    c.conform('CapiTrace', [gen_capi.script(c.rng) for _ in range(n)], chunk=750)
    # the texts describing the document, next to what the metadata states
    c.conform('DocInfoTrace', gen_info.systematic(c.rng, 'cinfo') + [gen_info.cscript(c.rng) for _ in range(n // 8)], chunk=400)
    return c.finish()
