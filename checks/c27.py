"""C27: fibre propagation solves the generalised nonlinear Schroedinger equation with the stated response."""
from vlib import tlc, gnlse
def run(c):
    r = c.rng; q = c.scale(1, 10)
    amps = {(0, 0), (1, 0), (0, 1), (-1, 1), (2, -1)} | ({(-2, -1), (3, 2), (0, -2), (1, 1)} if c.thorough else set()); wide = {(a, b) for a in range(-3, 4) for b in range(-3, 4)}
    even = {((a, 0), (b, e), (d, g), (1, 0), (1, 0)) for a in (1, 2) for b in (0, 3) for d in (1,) for e in (0, 1) for g in (0, 2)}
    jobs = [(('Gnlse', dict(NS={8}, AMPS=amps, RAMAN={0}, SESS=0, SIM=False, EVEN=even)), dict(invariants=['Laws', 'NoFold', 'Instant'], workers=4))]
    for k in range(3): jobs.append((('Gnlse', dict(NS={4, 6, 8, 12, 16}, AMPS=wide, RAMAN={0, 1, 2, 3}, SESS=6, SIM=True, EVEN=set())), dict(invariants=['Emit'], simulate=15*q, depth=10, seed=c.seed*47 + k)))
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    ls = [dict(l, seed=r.random()) for x in rs[1:] for l in x.lines]
    ds = c.replay_many(ls, lambda t: gnlse.replay(c, t), label='equation', seconds=200)
    c.notes['largest_deviation'] = '%.1e' % max([d for d in ds if d] or [0])
