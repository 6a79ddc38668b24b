"""C13: propagation reports what happened, leaves inputs alone; solvers can be reused."""
import random
from vlib import tlc, fibrereplay, planreplay
def run(c):
    r = random.Random(c.seed*131)
    q = c.scale(1, 12)
    rs = tlc.many([planreplay.job(10*q, c.seed*5 + 2, 4, 4), fibrereplay.design()] + [j for k in range(3) for j in fibrereplay.jobs(c, 90*q, 7 + 3*k, c.seed*17 + k)])
    for x in rs: c.tlc(x)
    for t in [l for x in rs[2:] for l in x.lines]:
        c.replay(t, lambda t: fibrereplay.replay(c, t, r.random()), label='session')
        if len(c.violations) >= 5: return
    for t in rs[0].lines:
        c.replay(t, lambda t: planreplay.replay(c, t, r.random(), share=True), label='shared solvers')
        if len(c.violations) >= 5: return
