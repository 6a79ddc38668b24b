"""C12: exact limiting cases, conservation laws and symmetries of fibre propagation."""
import random
from vlib import tlc, fibrereplay, planreplay
def run(c):
    r = random.Random(c.seed*121)
    q = c.scale(1, 12); stats = []
    rs = tlc.many([planreplay.design(c.thorough), fibrereplay.design(), planreplay.job(24*q, c.seed*7 + 1)] + fibrereplay.jobs(c, 70*q, 7, c.seed*7 + 3))
    for x in rs: c.tlc(x)
    for t in rs[2].lines:
        c.replay(t, lambda t: planreplay.replay(c, t, r.random(), stats), label='plan')
        if len(c.violations) >= 5: return
    c.notes['largest_difference_between_equivalent_plans'] = '%.1e' % max(stats or [0])
    for t in rs[3].lines:
        c.replay(t, lambda t: fibrereplay.replay(c, t, r.random(), config=True), label='exact case')
        if len(c.violations) >= 5: return
