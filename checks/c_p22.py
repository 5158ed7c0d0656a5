import gen_chunk
def run(c):
    n = 60000 if c.thorough() else 3000
    c.conform('ChunkTrace', [gen_chunk.script(c.rng) for _ in range(n)], chunk=1000)
    return c.finish()
