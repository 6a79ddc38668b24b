"""Crystals of the library and, written independently, the published Sellmeier equations they use."""
import math
import numpy as np
C_NMPS = 299792.458
def index(kind, sell, p, axis, wl):
    """p: temperature (degC) of lithium niobate or angle (radians) of the uniaxial crystals; wl in nm."""
    l = np.asarray(wl, float)/1000.0
    with np.errstate(all='ignore'):
        if kind == 'ppln':
            f = (p - 24.5)*(p + 570.82)
            if sell == 'Deng':      # Deng et al., Opt. Commun. 268, 110 (2006)
                a = (5.39121, .100473, .20692, 100.0, 11.34927, 1.544e-2); b = (4.96827e-7, 3.862e-8, -.89e-8, 2.657e-5, 9.62119e-10)
            else:                   # Gayer et al., Appl. Phys. B 91, 343 (2008)
                a = (5.756, .0983, .2020, 189.32, 12.52, 1.32e-2); b = (2.860e-6, 4.700e-8, 6.113e-8, 1.516e-4, 0.0)
            n2 = a[0] + b[0]*f + (a[1] + b[1]*f)/(l*l - (a[2] + b[2]*f)**2) + (a[3] + b[3]*f)/(l*l - a[4]**2) - (a[5] + b[4]*f)*l*l
            return np.sqrt(n2)
        if kind == 'agse':          # Roberts, Appl. Opt. 35, 4677 (1996)
            o = 6.849065 + .417863/(l**1.970203 - .178080) + .000442/(l**.340086 - .889242) + 1.209374/(1 - 915.345/l**1.921292)
            e = 6.675232 + .436579/(l**1.893694 - .229775) + .012063/(l**4.269152 - .213957) + 3.252722/(1 - 3129.32/l**2.047204)
        else:
            o = 5.814100 + .0867547/(l**3.156983 - .0356502) + .0821721/(l**4.430430 + .315646) + .506566/(l**6.604280 + 6.582197) + 176380./(1 - 112586195./l**2.225043)
            e = 5.530050 + .0510941/(l**2.359877 - .141109) + .195314/(l**2.566664 + .0910735) + 4253.78/(1 - 4304924./l**2.383834)
        if axis == 'o': return np.sqrt(o)
        if axis == 'e': return np.sqrt(e)
        return 1/np.sqrt(math.sin(p)**2/e + math.cos(p)**2/o)

def make(kind, p, **kw):
    if kind == 'ppln':
        from pynlo.media.crystals.XTAL_PPLN import PPLN
        return PPLN(p, **kw)
    if kind == 'agse':
        from pynlo.media.crystals.XTAL_AgGaSe2 import AgGaSe2 as K
    else:
        from pynlo.media.crystals.XTAL_AgGaS import AgGaSe2 as K
    return K(p, **kw)

def close(r, lo, hi, n=4, low=-5):
    """n parameter values, two of them very close to each other."""
    v = [r.uniform(lo, hi) for _ in range(n - 1)]
    v.append(v[r.randrange(n - 1)]*(1 + 10**r.uniform(low, -3)))
    r.shuffle(v)
    if r.random() < .6: v[1] = v[0]*(1 + 10**r.uniform(low, -3.5))
    return v

def grids(r):
    """Six grids (NPTS, window ps, centre nm) that differ in as little as possible."""
    N = r.choice([8, 16, 32]); wl0 = r.uniform(900, 3000)
    w = N*10**r.uniform(-3, -1.3)*8
    # every frequency of every grid positive
    f0 = C_NMPS/wl0
    while N/w > .8*f0: w *= 2
    g = [(N, w, wl0), (2*N, w, wl0), (N, 2*w, wl0), (N, w, wl0*(1 + 10**r.uniform(-4, -1))), (2*N, 2*w, wl0), (N, w*(1 + 1e-3), wl0)]
    if r.random() < .5: g[0], g[r.randrange(6)] = g[r.randrange(6)], g[0]
    return [x for x in g]
def wl(g):
    N, w, l = g
    f = C_NMPS/l + (np.arange(N) - N//2)/w
    return C_NMPS/f
def pulse_on(g, r=None, field=None):
    from pynlo.light.PulseBase import Pulse
    N, w, l = g
    p = Pulse(frep_MHz=r.choice([100., 80.]) if r else 100., n=N)
    p.set_center_wavelength_nm(l); p.set_time_window_ps(w)
    p.set_AT(np.ones(N, complex) if field is None else field)
    return p
def move(p, g, r):
    N, w, l = g
    for what in r.sample(['N', 'w', 'l'], 3):
        if what == 'N': p.set_NPTS(N)
        elif what == 'w': p.set_time_window_ps(w)
        elif r.random() < .5: p.set_center_wavelength_nm(l)
        else: p.set_center_wavelength_m(l*1e-9)
