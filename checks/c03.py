"""C03: phase operations multiply by exactly the documented factor, compose and invert."""
from vlib import pulsereplay as pr
OPS = ['setT','setC','putAW','putAT','chirpW','chirpT','phaseW','offset','new','mutate']
def run(c):
    c.assumptions += ['grids of 4..16 points whose size divides 16, 24 or 40; windows, centres, repetition rates and field scales drawn per history']
    pr.run(c, OPS, num=c.scale(60, 800), depth=c.scale(12, 18), only=['AW', 'AT', 'epp', 'W_THz', 'T_ps'], design=pr.design(c, OPS))
    pr.run(c, ['chirpW', 'phaseW', 'offset', 'putAW', 'setT', 'setC', 'new', 'clone'], num=c.scale(15, 200), depth=c.scale(10, 16), only=['AW', 'AT'], lift=[1, 2, 3, 4, 16, 64, 256, 512],
           views=('AT',), CS={240*k for k in (5000, 5001, 7400)}, batches=1, design=[])
    dechirp(c)

import random
import numpy as np
from vlib import tlc
from vlib.check import Mismatch

def dechirp(c):
    """Delay and chirp removal: spec/Dechirp.tla."""
    jobs = [(('Dechirp', dict(M=64, NS={4, 6, 8}, DEPTH=8)),
             dict(invariants=['Emit', 'Projected'], simulate=c.scale(100, 2000), depth=40, seed=c.seed*17 + b)) for b in range(c.scale(2, 6))]
    for b, rs in enumerate(tlc.many(jobs)):
        c.tlc(rs, 'states_dechirp')
        for i, tr in enumerate(rs.lines):
            c.replay(tr, lambda t: dechirp_replay(c, t, c.seed*31337 + 1009*b + i), label='dechirp')
            if len(c.violations) >= 5: return

def dechirp_replay(c, tr, seed):
    from pynlo.light.PulseBase import Pulse
    r = random.Random(seed); m = tr['m']; h = tr['h']
    n = h[0]['n']; mag = np.array(h[0]['mag'], float)*10**r.uniform(-3, 3); thr = h[0]['thr'][0]/h[0]['thr'][1]
    # keep away from bins exactly at the threshold
    q = np.array(h[0]['mag'])**2; edge = np.any(q*h[0]['thr'][1] == h[0]['thr'][0]*q.max())
    if edge: thr *= 1 + 1e-9
    tw = 10**r.uniform(-1, 1.5)
    p = Pulse(n=n, frep_MHz=100.0); p.set_time_window_ps(tw); wl = 10**r.uniform(2.5, 3.5); p.set_center_wavelength_nm(wl)
    p.set_AW(mag)
    kw = {} if abs(thr - .05) < 1e-12 and r.random() < .7 else dict(intensity_threshold=thr)
    for i, s in enumerate(h[1:]):
        where = 'step %d %s%s mags %s' % (i, s['op'], s['a'], h[0]['mag'])
        x = np.arange(n) - n//2
        if s['op'] == 'phase':
            c0, c1, c2, c3 = s['a']; u = 2*np.pi/m
            if c0 == 0 and c1 == 0 and r.random() < .7:
                p.chirp_pulse_W(2*u*c2*(tw/(2*np.pi))**2, 6*u*c3*(tw/(2*np.pi))**3)
            else: p.apply_phase_W(u*(c0 + c1*x + c2*x**2 + c3*x**3))
        elif s['op'] == 'delay': p.remove_time_delay(**kw)
        else: p.dechirp_pulse(**kw)
        ph = sum(np.array(e['v'], float)/e['d'] for e in s['ph'])*2*np.pi/m
        pr.compare('AW', p.AW, mag*np.exp(1j*ph), where, tol=2e-8 + 6e-15*(299792.458/wl*tw)**2)      # least squares over absolute frequencies: rounding grows with (centre/spacing)^2
        pr.compare('|AW|', np.abs(p.AW), mag, where, tol=1e-10)
        c.steps += 1
