"""C07: the built-in pulses have the documented profile, width and power on every grid."""
import math, random
import numpy as np
from vlib import tlc
from vlib.check import Mismatch
from vlib.pulsereplay import C_NMPS, compare

def dft(n):
    m = np.arange(n) - n//2
    return np.exp(-2j*np.pi*np.outer(m, m)/n)          # AT = dft @ AW

def profile(s, n, m):
    k = s['kind']
    if k == 'sech': return np.array([a/b for a, b in s['prof']])
    if k == 'gauss': return np.array([2.0**(a/b/2) for a, b in s['prof']])
    if k == 'sinc':
        z = np.exp(2j*np.pi*np.arange(m//2)/m); q = s['w'][0]
        return np.array([1.0 if e['u'] == 0 else ((np.array(e['num'], float) @ z)/2j).real*q/(math.pi*e['den']) for e in s['prof']])

def run(c):
    jobs = [(('Shapes', dict(M=48, NS={4, 6, 8, 10, 12, 16}, BIG={32, 64, 100, 256}, DEPTH=6)),
             dict(invariants=['Emit', 'Even', 'SechIdentity', 'HalfPower'], simulate=c.scale(60, 3000), depth=8, seed=c.seed*13 + b)) for b in range(4)]
    for b, rs in enumerate(tlc.many(jobs, 4)):
        c.tlc(rs)
        for i, tr in enumerate(rs.lines):
            c.replay(tr, lambda t: replay(c, t, c.seed*7919 + 100003*b + i))
            if len(c.violations) >= 5: return

def replay(c, tr, seed):
    from pynlo.light import DerivedPulses as D
    r = random.Random(seed)
    made = []
    for e in tr['h']:
        n, s, m = e['n'], e['s'], tr['m']
        tw = r.choice([2.0, 10.0, 10**r.uniform(0.03, 2)]); dT = tw/n
        power = 10**r.uniform(-4, 5); frep = r.choice([100.0, 10**r.uniform(-3, 4)])
        wl = r.choice([800.0, 1550.0, 10**r.uniform(2.3, 4)])
        where = '%s n=%d width=%s avg=%d chirps=%s,%s' % (s['kind'], n, s['w'], e['avg'], e['cw'], e['ct'])
        if s['kind'] == 'cw':
            off, how = s['w']
            if how and C_NMPS/wl <= (abs(off) + n)/tw: wl = C_NMPS*tw/(3*n)
            if how == 2:
                if C_NMPS/wl <= (abs(off) + n)/tw: wl = C_NMPS*tw/(3*n + 2*abs(off))
                try: D.CWPulse(power, wl, time_window_ps=tw, NPTS=n, offset_from_center_THz=(off + r.choice([0, .3, -.3]))/tw)
                except Exception: c.steps += 1
                else: raise Mismatch(where + ': a line outside the grid was accepted')
                continue
            if how:
                p = D.CWPulse(power, wl, time_window_ps=tw, NPTS=n, offset_from_center_THz=(off + r.choice([0, .3, -.3]))/tw)
            else: p = D.CWPulse(power, wl, time_window_ps=tw, NPTS=n)
            f = C_NMPS/wl
            want = np.zeros(n, complex); want[s['bin']] = math.sqrt(power)
            compare('AW', np.abs(p.AW), np.abs(want), where); c.steps += 1
            compare('frequency of the single bin', p.F_THz[s['bin']], f, where)
            compare('centre', p.center_frequency_THz, f - off/tw, where)
            compare('average power', np.mean(np.abs(p.AT)**2), power, where)
        else:
            gw, hw = e['cw']; gt, ht = e['ct']
            # width parameter in ps, and T0 the temporal chirp is scaled by
            if s['kind'] == 'sech':
                width = T0 = dT/math.acosh(s['w'][0]/s['w'][1]); ctor = D.SechPulse
            elif s['kind'] == 'gauss': width = T0 = s['w'][0]*dT; ctor = D.GaussianPulse
            else: T0 = s['w'][0]*dT/math.pi; width = 3.7909885*T0; ctor = D.SincPulse
            kw = dict(time_window_ps=tw, frep_MHz=frep, NPTS=n)
            if gw or r.random() < .3: kw['GDD'] = gw*tw**2/(np.pi*m)
            if hw or r.random() < .3: kw['TOD'] = 6*2*np.pi*hw/m*(tw/(2*np.pi))**3
            x = T0/dT
            if gt or r.random() < .3: kw['chirp2'] = 2*2*np.pi*gt/m*x**2
            if ht or r.random() < .3: kw['chirp3'] = 3*2*np.pi*ht/m*x**3
            if e['avg'] or r.random() < .5: kw['power_is_avg'] = bool(e['avg'])
            p = ctor(power, width, wl, **kw)
            prof = profile(s, n, m)
            F = dft(n)
            if e['avg']:
                chirped = F @ (np.conj(F.T) @ prof/n*np.exp(2j*np.pi*np.array(e['phW'])/m))*np.exp(2j*np.pi*np.array(e['phT'])/m)
                # the stated average power belongs to the pulse before it is chirped: trapezoid energy of the profile
                e0 = dT*1e-12*np.trapz(prof**2)
                amp = math.sqrt(power/(frep*1e6*e0))
            else: amp = math.sqrt(power)
            tol = 1e-9 if s['kind'] != 'gauss' else 2e-3      # 2.77 against 4 ln 2
            # undo the temporal chirp, then look at the spectrum
            at = p.AT*np.exp(-2j*np.pi*np.array(e['phT'])/m)
            aw = (np.conj(F.T) @ at)/n*np.exp(-2j*np.pi*np.array(e['phW'])/m)
            base = F @ aw
            compare('profile', base, amp*prof, where, tol=tol); c.steps += 1
            if s['kind'] == 'gauss':
                pos = base[prof > 1e-4].real/amp; lg = 2*np.log2(np.maximum(pos, 1e-300)); want = 2*np.log2(prof[prof > 1e-4])
                big = np.abs(want) > 1e-3
                if not e['avg'] and np.any(np.abs(lg[big]/want[big] - 1) > 2.5e-3):
                    raise Mismatch(where + ': width: log2 of the relative power %s, specification %s' % (lg, want))
            if not e['avg']: compare('peak power', np.abs(base[n//2])**2, power, where, tol=1e-9)
            elif not any((gw, hw)): compare('average power', p.calc_epp()*p.frep_mks, power, where, tol=1e-9)
            compare('centre wavelength', p.center_wavelength_nm, wl, where)
            compare('frep', p.frep_MHz, frep, where)
        compare('window', p.time_window_ps, tw, where); compare('NPTS', p.NPTS, n, where)
        made.append((p, p.AW, p.T_ps, p.W_mks, where))
    for p, aw, t, w, where in made:            # later constructions must not disturb earlier pulses
        compare('AW later', p.AW, aw, where); compare('T later', p.T_ps, t, where); compare('W later', p.W_mks, w, where)
