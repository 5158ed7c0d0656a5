import gen_stream
def run(c):
    n = 16000 if c.thorough() else 2500
    c.conform('StreamTrace', [gen_stream.script(c.rng) for _ in range(n)], chunk=2500)
    c.conform('StreamTrace', [gen_stream.script(c.rng, True) for _ in range(n // 5)], chunk=2500)
    c.conform('StreamTrace', [gen_stream.script(c.rng, True) for _ in range(n // 12)], san='tsan', chunk=2500)
    c.conform('StreamTrace', [gen_stream.web(c.rng, k % 8 == 0) for k in range(n // 4)], chunk=2500)
    c.conform('StreamTrace', [gen_stream.web(c.rng, True) for _ in range(n // 25)], san='tsan', chunk=2500)
    return c.finish()
