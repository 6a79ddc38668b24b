"""C19: Gaussian beams and waveguide modes."""
import json, math, random
import numpy as np
from vlib import tlc
from vlib.check import Mismatch
from vlib import crystals as X
from scipy.constants import epsilon_0 as EPS
C = 299792458.0
NB = 4
def run(c):
    r = random.Random(c.seed*191)
    q = c.scale(1, 10)
    jobs = [(('Beam', dict(DEPTH=c.scale(3, 4), SIM=False, NB=2, FMAX=5)), dict(invariants=['Matched', 'Geometry', 'OverlapBound'], view='View', workers=4))]
    for k in range(3):
        jobs.append((('Beam', dict(DEPTH=6 + 8*k, SIM=True, NB=NB, FMAX=7)), dict(invariants=['Emit', 'Matched'], simulate=120*q, depth=40, seed=c.seed*31 + k)))
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    ls = list({json.dumps(l): l for x in rs[1:] for l in x.lines}.values()); r.shuffle(ls)
    for t in ls[:c.scale(360, 3600)]:
        c.replay(t, lambda t: replay(c, t, r.random()), label='history')
        if len(c.violations) >= 5: return

def v(x): return float('inf') if x[1] == 0 else x[0]/x[1]
def arr(vs, k): return np.array([v(e[k]) for e in vs])
def replay(c, tr, seed):
    from pynlo.light.beam import OneDBeam
    from pynlo.light.high_V_waveguide import OneDBeam_highV_WG
    from pynlo.media.crystals.CrystalContainer import Crystal
    r = random.Random(seed)
    f0 = r.uniform(20, 60)                       # THz per unit of frequency
    lam = C/(f0*1e12); A = 10**r.uniform(-13, -6)  # metres; area unit
    zu = A/math.pi/lam*math.pi                   # zR = pi w0^2 n/lambda = q n f (A/lam)
    pulses = [X.pulse_on((NB, 1/(g['s']*f0), X.C_NMPS/(g['f']*f0)), r) for g in tr['g']]
    class Medium(Crystal):
        def __init__(self, m, **kw): Crystal.__init__(self, kw); self.m = m; self.mode = 'simple'
        def n(self, wl_nm, axis=None):
            f = np.rint(X.C_NMPS/np.asarray(wl_nm, float)/f0).astype(int); a = axis or 'none'
            return self.m['a'][a] + (f % 2 if self.m['b'][a] else 0*f)*1.0
    media = [Medium(m, enable_caching=r.random() < .5, length=zu) for m in tr['m']]
    bs, wgs = [], []
    def eq(got, want, what, tol=1e-9):
        got = np.asarray(got)
        if got.shape not in ((NB,), ()) or not np.all(np.isclose(got, want, rtol=tol, atol=0)): raise Mismatch('%s is %r, not %r' % (what, got.tolist(), np.asarray(want).tolist()))
    for t, s in enumerate(tr['h']):
        c.steps += 1; op = s['op']; what = 'step %d (%s): ' % (t + 1, op)
        if op == 'new':
            ax = None if s['ax'] == 'none' else s['ax']; p = pulses[s['g'] - 1]
            w = math.sqrt(v(s['q'])*A/math.pi)
            b = OneDBeam(w, this_pulse=p, axis=ax) if ax or r.random() < .5 else OneDBeam(waist_meters=w, this_pulse=p)
            bs.append((b, p))
        elif op == 'refocus':
            w = math.sqrt(v(s['q'])*A/math.pi)
            bs[s['i'] - 1][0].set_w0(w if r.random() < .5 else np.full(NB, w))
        elif op == 'confocal':
            b, p = bs[s['i'] - 1]; o, po = bs[s['k'] - 1]
            b.set_waist_to_match_confocal(p, po, o, media[s['m'] - 1])
        elif op == 'central':
            b, p = bs[s['i'] - 1]; b.set_waist_to_match_central_waist(p, math.sqrt(v(s['q'])*A/math.pi), media[s['m'] - 1])
        elif op == 'query':
            b, p = bs[s['i'] - 1]; m = media[s['m'] - 1]; z = v(s['z'])*zu; w = s['v']
            n, q, zr, area = arr(w, 'n'), arr(w, 'q')*A, arr(w, 'zr')*zu, arr(w, 'area')*A
            eq(b.get_n_in_crystal(p, m), n, what + 'index'); eq(b.get_k_in_crystal(p, m), 2*np.pi*n/p.wl_mks, what + 'wavenumber')
            qs = [lambda: eq(b.waist, np.sqrt(q/math.pi), what + 'waist'), lambda: eq(b.calc_confocal(n), 2*zr, what + 'confocal length'),
                  lambda: eq(b.calculate_zR(n), zr, what + 'Rayleigh range'), lambda: eq(b.calculate_waist(z, n), np.sqrt(area/math.pi), what + 'spot size at %g' % z),
                  lambda: eq(b.calculate_waist(-z, n_s=n), np.sqrt(area/math.pi), what + 'spot size at %g' % -z),
                  lambda: eq(b.calculate_R(z, n), arr(w, 'R')*zu, what + 'wavefront radius at %g' % z),
                  lambda: eq(b.calculate_gouy_phase(z, n), (zr + 1j*z)/np.hypot(zr, z), what + 'Gouy phase at %g' % z),
                  lambda: eq(b.calculate_gouy_phase(-z, n), (zr - 1j*z)/np.hypot(zr, z), what + 'Gouy phase at %g' % -z),
                  lambda: eq(b.rtP_to_a(n), 1/np.sqrt(q*n*EPS*C), what + 'field-to-power factor'),
                  lambda: eq(b.rtP_to_a_2(p, m, z), 1/np.sqrt(area*n*EPS*C), what + 'field-to-power factor at %g' % z),
                  lambda: eq(b.rtP_to_a_2(p, m, None, np.sqrt(3*area/math.pi)), 1/np.sqrt(3*area*n*EPS*C), what + 'field-to-power factor for a spot'),
                  lambda: eq(b.calculate_waist(z), np.sqrt(q/math.pi*(1 + (z*n/zr)**2)), what + 'spot size in vacuum'),
                  lambda: eq(b.calculate_zR(), zr/n, what + 'Rayleigh range in vacuum')]
            r.shuffle(qs)
            for f in qs: f()
        elif op == 'overlap':
            b, p = bs[s['i'] - 1]; o, po = bs[s['k'] - 1]; m = media[s['m'] - 1]; z = v(s['z']); w = s['v']
            k1, k2, z1, z2 = (arr(w, k) for k in ('k1', 'k2', 'z1', 'z2'))
            want = 4*k1*k2*z1*z2/((k1 - k2)**2*z**2 + (k1*z2 + k2*z1)**2)
            got = b.calc_overlap_integral(z*zu, p, po, o, m); back = o.calc_overlap_integral(z*zu, po, p, b, m)
            eq(got, want, what + 'overlap', 1e-7); eq(back, want, what + 'overlap the other way round', 1e-7)
            if np.max(got) > 1 + 1e-9: raise Mismatch(what + 'overlap above one')
        elif op == 'optimal':
            b, p = bs[s['i'] - 1]; o, po = bs[s['k'] - 1]; m = media[s['m'] - 1]; w = s['v']; L = s['len']/10.
            k1, k2, z2 = (arr(w, k) for k in ('k1', 'k2', 'z2'))
            q1, q2 = np.array(b.waist), np.array(o.waist)
            if s['len'] == 10 and r.random() < .5: got = b.calc_optimal_beam_overlap_in_crystal(p, po, o, m)
            else: got = b.calc_optimal_beam_overlap_in_crystal(p, po, o, m, L*zu) if r.random() < .5 else b.calc_optimal_beam_overlap_in_crystal(p, po, o, m, L=L*zu)
            if not (np.array_equal(q1, b.waist) and np.array_equal(q2, o.waist)): raise Mismatch(what + 'a beam was refocused')
            got = np.asarray(got, float)
            if got.shape != (NB,) or not np.all(got > 0): raise Mismatch(what + 'the waists are %r' % got.tolist())
            z1 = math.pi*got**2*arr(w, 'k1')/A*(A/zu)/lam       # Rayleigh range, in units: n f q
            def mean(z1, a):        # the overlap, averaged over distances 0 to a from the focus
                D = k1*z2 + k2*z1; x = (k1 - k2)*a/D
                return 4*k1*k2*z1*z2/D**2*np.where(np.abs(x) < 1e-9, 1., np.arctan(x)/np.where(x == 0, 1, x))
            # the focus may be at the end of the crystal or in its middle
            scan = z2*np.exp(np.linspace(-7, 7, 2801))[:, None]
            lack = [float(np.max(1 - mean(z1, a)/mean(scan, a).max(0))) for a in (L, L/2)]
            if not min(lack) < 1e-4: raise Mismatch(what + 'the overlap along the crystal can be bettered by %g' % min(lack))
        elif op == 'wg':
            ax = None if s['ax'] == 'none' else s['ax']; p = pulses[s['g'] - 1]
            wgs.append((OneDBeam_highV_WG(Aeff_squm=v(s['q'])*A*1e12, this_pulse=p, axis=ax), p))
        elif op == 'setwg': wgs[s['i'] - 1][0].set_Aeff(v(s['q'])*A)
        else:
            b, p = wgs[s['i'] - 1]; m = media[s['m'] - 1]; z = v(s['z'])*zu
            n, area = arr(s['v'], 'n'), arr(s['v'], 'area')*A
            eq(b.Aeff, area[0], what + 'mode area'); eq(b.rtP_to_a(n), 1/np.sqrt(area*n*EPS*C), what + 'field-to-power factor')
            eq(b.rtP_to_a(n, z), 1/np.sqrt(area*n*EPS*C), what + 'field-to-power factor at z'); eq(b.rtP_to_a_2(p, m, z), 1/np.sqrt(area*n*EPS*C), what + 'field-to-power factor in the crystal')
            eq(b.calculate_gouy_phase(z, n), 1.0, what + 'Gouy phase'); eq(b.calc_overlap_integral(z, p, p, b, m), 1.0, what + 'overlap')
            eq(b.get_n_in_crystal(p, m), n, what + 'index')
