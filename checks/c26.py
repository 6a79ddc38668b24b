"""C26: a whole mixing run: exact limits, conserved quantities and rewritings that must not matter."""
from vlib import tlc, mixrun
LEN = 24
I = ['Emit', 'Connected', 'Bounded']
def run(c):
    r = c.rng; q = c.scale(1, 12)
    a = dict(FLAT={1, 2, 3}, DISP={4, 5, 6, 7}, POLED={1, 2, 4, 5, 7}, LEN=LEN, HALVES={2, 4, 6, 8, 10}, POWERS=set(range(-5, 6)), TURNS=set(range(16)), SESS=3, STEPS=5, SIM=True)
    small = dict(FLAT={1, 2}, DISP={3, 4}, POLED={2, 3}, LEN=7, HALVES={2, 4}, POWERS={0, 1}, TURNS={0, 5}, SESS=1, STEPS=c.scale(2, 3), SIM=False)
    jobs = [(('MixRun', small), dict(invariants=['Connected', 'Bounded'], properties=['KeepsMeaning'], workers=4))]
    jobs.append((('MixRun', dict(a, FLAT={1, 2}, DISP=set(), POLED={1, 2})), dict(invariants=I, properties=['KeepsMeaning'], simulate=30*q, depth=20, seed=c.seed*43)))
    for k in range(2): jobs.append((('MixRun', a), dict(invariants=I, properties=['KeepsMeaning'], simulate=16*q, depth=20, seed=c.seed*41 + k)))
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    ls = [dict(l, seed=r.random()) for x in rs[1:] for l in x.lines]
    ds = c.replay_many(ls, lambda t: mixrun.replay(c, t, LEN), label='run', seconds=200)
    c.notes['largest_difference_between_equivalent_runs'] = '%.1e' % max([d for d in ds if d] or [0])
