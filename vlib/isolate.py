"""Running histories of the isolation specification, whole or only the slice of one object, each in a
process forked from one that has done nothing but import the library."""
import copy, os, pickle, random, signal, sys, time, types
import numpy as np
N = 32

class Skip(Exception): pass
class Values(random.Random):
    """Numbers of one operation; most come from a few of the history, so that different objects share some of theirs."""
    few = ()
    def uniform(self, a, b): return a + (b - a)*self.choice(self.few) if self.few and self.random() < .75 else random.Random.uniform(self, a, b)
class World:
    """One run: seed fixes every number used, so that an operation does the same in every run."""
    def __init__(self, seed): self.seed = seed; self.objs = {}; self.out = {}; q = random.Random('%s' % seed); self.few = [q.random(), q.random()]
    def do(self, t, s):
        r = Values('%s/%d/%d' % (self.seed, t, s['v'])); r.few = self.few
        args = [self.objs.get(i) for i in s['r']]; w = self.objs.get(s['w']) if s['w'] else None
        for i in s['c']: self.objs[i] = None
        if any(a is None for a in args) or (s['w'] and w is None): self.out[t] = 'skipped'; return
        try: made = OPS[s['n']](r, w, *args)
        except (KeyboardInterrupt, SystemExit, MemoryError, TimeoutError): raise
        except Exception as e: self.out[t] = type(e).__name__; return
        self.out[t] = 'ok'
        for i, o in zip(s['c'], made or ()): self.objs[i] = o

def arr(r): return np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(N)])
def grid(p, r):
    p.set_NPTS(N); p.set_time_window_ps(r.uniform(2, 10)); p.set_center_wavelength_nm(r.uniform(1000, 1700)); p.set_frep_MHz(r.uniform(50, 200))
    return p
def new_pulse(r):
    from pynlo.light.PulseBase import Pulse
    from pynlo.light import DerivedPulses as D
    k = r.randrange(6); wl = r.uniform(1000, 1700); win = r.uniform(2, 10)
    kw = dict(time_window_ps=win, NPTS=N)
    pk = dict(kw, frep_MHz=r.uniform(50, 200), GDD=r.uniform(-.01, .01), TOD=r.uniform(-.001, .001), power_is_avg=r.random() < .3)
    if k == 0: return D.SechPulse(r.uniform(1, 100), r.uniform(.1, .5), wl, **pk)
    if k == 1: return D.GaussianPulse(r.uniform(1, 100), r.uniform(.1, .5), wl, **pk)
    if k == 2: return D.SincPulse(r.uniform(1, 100), r.uniform(.1, .5), wl, **pk)
    if k == 3: return D.CWPulse(r.uniform(.1, 1), wl, offset_from_center_THz=r.choice([None, r.uniform(-1, 1)]), **kw)
    np.random.seed(r.randrange(10**6))
    if k == 4: return D.NoisePulse(wl, **kw)
    p = grid(Pulse(), r); p.set_AT(np.sqrt(10.)*arr(r)); p.add_noise(r.choice(['sqrt_N_freq', 'one_photon_freq']))
    return p
def blank(r):
    from pynlo.light.PulseBase import Pulse
    p = Pulse(frep_MHz=r.choice([None, 77.]), n=r.choice([None, N]))
    for what in r.sample(['w', 'l', 'f'], r.randrange(3)):
        if what == 'w': p.set_time_window_ps(r.uniform(2, 10))
        elif what == 'l': p.set_center_wavelength_nm(r.uniform(1000, 1700))
        else: p.set_frep_MHz(r.uniform(50, 200))
    return p
def pulse_from(r, a):
    from pynlo.light.PulseBase import Pulse
    p = grid(Pulse(), r); (p.set_AT if r.random() < .5 else p.set_AW)(a)
    return p
def pulse_dict(d):
    from pynlo.light.PulseBase import Pulse
    p = Pulse(); p.load_pulse_dict(d); return p
def derive(r, p):
    if r.random() < .5: return p.interpolate_to_new_center_wl(p.center_wavelength_nm*r.uniform(.99, 1.01))
    return p.create_subset_pulse(p.center_wavelength_nm, p.NPTS//2)
def pset(r, p):
    k = r.randrange(14)
    if k == 0: p.set_frep_MHz(r.uniform(50, 200))
    elif k == 1: p.set_center_wavelength_nm(r.uniform(1000, 1700))
    elif k == 2: p.set_time_window_ps(r.uniform(2, 10))
    elif k == 3: p.set_epp(10**r.uniform(-13, -10))
    elif k == 4: p.chirp_pulse_W(r.uniform(-.1, .1), r.uniform(-.01, .01), w0_THz=r.choice([None, p.center_frequency_THz*6.3]))
    elif k == 5: p.add_time_offset(r.uniform(-1, 1))
    elif k == 6: p.rotate_spectrum_to_new_center_wl(p.center_wavelength_nm*r.uniform(.99, 1.01))
    elif k == 7: p.filter_by_wavelength_nm(p.center_wavelength_nm*.995, p.center_wavelength_nm*1.006)
    elif k == 8 and p.NPTS <= 32: p.expand_time_window(1, r.choice(['before', 'after', 'even']))
    elif k == 9: np.random.seed(r.randrange(10**6)); p.add_noise(r.choice(['sqrt_N_freq', 'one_photon_freq']))
    elif k == 10: p.set_frequency_window_THz(r.uniform(5, 20))
    elif k == 11: p.chirp_pulse_T(r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(.1, 1))
    elif k == 12: p.set_NPTS(r.choice([16, N])); 
    else: p.set_AT(np.ones(p.NPTS)*r.uniform(.1, 2))
def psetarr(r, p, a):
    k = r.randrange(3)
    if k == 0: p.set_AT(a)
    elif k == 1: p.set_AW(a)
    else: p.apply_phase_W(a.real)
def plook(r, p):
    return [p.AT, p.AW, p.wl_nm, p.wl_mks, p.W_mks, p.W_THz, p.V_THz, p.T_ps, p.T_mks, p.F_THz, p.F_mks, p.V_mks, p.calculate_intensity_autocorrelation(), p.calc_epp()]
def user(r, a): a *= r.uniform(-2, 2); a[::3] = r.uniform(-1, 1)
def userdict(r, d):
    d['AT_re'][:] = [r.gauss(0, 1) for _ in d['AT_re']]; d['frep_MHz'] = r.uniform(50, 200); d['AT_im'][0] = 9.
def fibre(r, betas=None):
    from pynlo.media.fibers.fiber import FiberInstance
    f = FiberInstance()
    f.generate_fiber(10**r.uniform(-3, -2), r.uniform(1000, 1700), betas if betas is not None else [r.uniform(-.02, .02), r.uniform(-1e-4, 1e-4)][:r.randint(1, 2)], r.uniform(0, .02), gain=r.choice([0, r.uniform(-5, 5)]),
                     gvd_units=r.choice(['ps^n/m', 'ps^n/km']), label='fibre %d' % r.randrange(99))
    return f
def fibre_db(r):
    from pynlo.media.fibers.fiber import FiberInstance
    f = FiberInstance(); f.load_from_db(10**r.uniform(-3, -2), 'dudley', poly_order=r.randint(1, 4)); return f
def fibre_blank(r):
    from pynlo.media.fibers.fiber import FiberInstance
    return FiberInstance()
def fset(r, f, a=None):
    k = r.randrange(6)
    if a is not None: k = 6 + r.randrange(3)
    if k == 0: f.length = 10**r.uniform(-3, -2)
    elif k == 1: g = r.uniform(0, .02); f.set_gamma_function(lambda z: g*(1 + 100*z))
    elif k == 2: b = r.uniform(-.02, .02); f.set_dispersion_function(lambda z: (b*(1 - z), 1e-5), 'GVD')
    elif k == 3:
        x = np.linspace(700, 2500, 19); y = r.uniform(-40, 40)*np.cos(x/300.); f.poly_order = r.randint(2, 5)
        f.set_dispersion_function(lambda z: (x, y*(1 + z)), 'D')
    elif k == 4: f.load_from_db(10**r.uniform(-3, -2), 'dudley')
    elif k == 5: f.gamma = r.uniform(0, .02)
    elif k == 6: f.generate_fiber(10**r.uniform(-3, -2), r.uniform(1000, 1700), a.real[:2], .01, gvd_units=r.choice(['ps^n/m', 'ps^n/km']))
    elif k == 7: b = a.real[:2].copy(); f.set_dispersion_function(lambda z: b, 'GVD')
    else:
        x = np.linspace(2500, 600, 40); y = 1.45 + 1e-3*np.sin(x/500) + 1e-6*a.real[0]*x; f.set_dispersion_function(lambda z: (x, y), 'n')
def fuse(r, f, p):
    k = r.randrange(4)
    if k == 0: return [np.asarray(f.get_betas(p, z=r.uniform(0, .01)))]
    if k == 1: return [np.asarray(f.get_gain(p, 1.)), f.get_gamma(r.uniform(0, .01))]
    if k == 2: return [f.Beta2(p)]
    return [f.Beta2_to_D(p)]
def xtal(r):
    from vlib import crystals as X
    k = r.choice(['ppln', 'agse', 'ags', 'ppln'])
    kw = dict(length=10**r.uniform(-4, -3)) if r.random() < .8 else dict(length=2e-4)
    x = X.make(k, r.uniform(20, 150) if k == 'ppln' else r.uniform(.1, 1.4), enable_caching=r.random() < .6, **kw)
    if r.random() < .7 and k == 'ppln': x.set_pp((r.uniform(2e-5, 4e-5),))
    return x
def xset(r, x):
    k = r.randrange(5)
    if k == 0:
        if hasattr(x, 'theta'): x.set_theta(r.uniform(.1, 1.4))
        else: x.set_T(r.uniform(20, 150))
    elif k == 1: x.set_caching(r.random() < .6)
    elif k == 2:
        if hasattr(x, 'theta'): x.deff = r.uniform(1e-12, 1e-11)
        else: x.load(r.uniform(20, 150), r.choice(['Deng', 'Gayer_5pctMg']))
    elif k == 3: x.set_pp_chirp(r.uniform(2e-5, 4e-5), r.uniform(2e-5, 4e-5))
    else: x._crystal_properties['damage_threshold_GW_per_sqcm'] = r.uniform(1, 9)
def axis(r, x): return r.choice(['mix', 'o', 'e']) if hasattr(x, 'theta') else None
def xuse(r, x, p):
    k = r.randrange(4); a = axis(r, x)
    if k < 2: return [x.get_pulse_n(p, a), x.get_pulse_n(p, a)]
    if k == 2: return [x.get_pulse_k(p, a)]
    if hasattr(x, 'theta'): return [np.asarray(x.phasematch(1500., 2300., None), float)]
    return [np.asarray(x.calculate_poling_period(1064., 1550., None, silent=True), float)]
def beam(r, p):
    from pynlo.light.beam import OneDBeam
    return OneDBeam(10**r.uniform(-5, -4), this_pulse=p)
def bmatch(r, b, p, o, x):
    if r.random() < .5: b.set_waist_to_match_confocal(p, p, o, x)
    else: b.set_waist_to_match_central_waist(p, 10**r.uniform(-5, -4), x)
def buse(r, b, p, x):
    n = x.get_pulse_n(p)
    return [b.calculate_waist(r.uniform(0, .1), n), b.calculate_zR(n), b.calculate_gouy_phase(.01, n), b.rtP_to_a(n), b.rtP_to_a_2(p, x), b.calculate_R(.02, n), np.asarray(b.waist)]
def wg(r, p):
    from pynlo.light.high_V_waveguide import OneDBeam_highV_WG as W
    return W(Aeff_squm=r.uniform(1, 100), this_pulse=p)
def ssfm(r):
    from pynlo.interactions.FourWaveMixing.SSFM import SSFM
    return SSFM(local_error=10**r.uniform(-5, -2), dz=10**r.uniform(-5, -3), disable_Raman=r.random() < .5, disable_self_steepening=r.random() < .5, USE_SIMPLE_RAMAN=r.random() < .5, f_R=r.uniform(.1, .3), tau_1=r.uniform(.01, .015), tau_2=r.uniform(.03, .04))
def sset(r, s):
    k = r.randrange(4)
    if k == 0: s.disable_Raman = not s.disable_Raman
    elif k == 1: s.f_R = r.uniform(.1, .3)
    elif k == 2: s.local_error = 10**r.uniform(-5, -2)
    else: s.disable_self_steepening = not s.disable_self_steepening
def prop(r, s, p, f):
    out = s.propagate(p, f, r.randint(1, 3), reload_fiber_each_step=r.random() < .4)
    return [list(out[:3]), out[3]]
def gain(r, s, p, f):
    from pynlo.media.fibers.fiber import FiberInstance
    if not isinstance(getattr(f, 'gain', 0), float): return fail()
    (y, AW, AT, o), k = s.propagate_to_gain_goal(p, f, r.randint(1, 2), power_goal=p.calc_epp()*p.frep_mks*np.exp(f.gain*f.length), powertol=2.)
    return [[y, AW, AT, float(np.squeeze(k))], o]
def fail(): raise ValueError('not applicable')
def coh(r, s, p, f):
    g, res = s.calculate_coherence(p, f, num_trials=2, random_seed=r.randrange(10**6), n_steps=1)
    return [[a for q in res for a in q[:3]]]
def scribble(r, o):
    for a in o:
        if isinstance(a, np.ndarray) and a.ndim: a *= r.uniform(-2, 2); a[..., ::2] = r.uniform(-1, 1)
def comp(r):
    from pynlo.devices.grating_compressor import TreacyCompressor
    return TreacyCompressor(r.uniform(100, 500), r.uniform(10, 40))
class RHS:
    def __init__(self, w): self.w = w; self.n = 0
    def deriv(self, x, y, d): self.n += 1; d[:] = 1j*self.w*np.roll(y, 1) - .2*y*np.abs(y)**2*np.cos(x)
def ode(r, a):
    from pynlo.util.ode_solve import dopr853 as E
    from pynlo.util import ode_solve
    y = a[:r.randint(1, 4)].copy(); d = np.zeros_like(y); q = RHS(r.uniform(.5, 3)); x = r.uniform(-1, 1); q.deriv(x, y, d)
    s = E.StepperDopr853(y, d, x, 10**r.uniform(-10, -5), 10**r.uniform(-10, -5), True); s.hnext = 10**r.uniform(-1.5, .5)*r.choice([1, -1])
    return types.SimpleNamespace(s=s, q=q)
def odestep(r, o): o.s.step(o.s.hnext, o.q)
def odewhole(r):
    from pynlo.util import ode_solve
    from pynlo.util.ode_solve import dopr853 as E
    y = arr(r)[:3].copy(); k = r.choice([-1, 0, 5]); out = ode_solve.Output() if k < 0 else ode_solve.Output(k)
    o = ode_solve.ODEint(y, 0.0, r.uniform(.5, 2), 1e-7, 1e-7, .1, 0.0, out, E.StepperDopr853, RHS(r.uniform(.5, 3)), dense=k > 0)
    o.integrate()
    return [[y, out.xsave[:out.count], out.ysave[:out.count]] if k >= 0 else [y]]
def pumps(r):
    from vlib import crystals as X
    from pynlo.light.PulseBase import Pulse
    w = r.uniform(4, 10); ps = []
    for l in (r.uniform(1000, 1080), r.uniform(1500, 1580)):
        p = Pulse(n=N); p.set_time_window_ps(w); p.set_center_wavelength_nm(l); p.set_AT(arr(r)); ps.append(p)
    return ps
def dfg(r, p, s, x):
    from pynlo.interactions.ThreeWaveMixing import DFG_integrand as D
    import matplotlib.pyplot as plt
    kw = dict(wg_mode=True, Aeff_squm=r.uniform(10, 100)) if x.mode == 'PP' and r.random() < .4 else dict(pump_waist=10**r.uniform(-5, -4), apply_gouy_phase=r.random() < .5)
    d = D.dfg_problem(p, s, x, disable_SPM=True, **kw); plt.close('all')
    return d
def dderiv(r, d, a):
    y = np.concatenate([np.roll(a, k) for k in range(3)]); out = np.zeros(3*N, complex); d.deriv(r.uniform(0, d.crystal.length_mks), y, out); return [[out]]
def dproc(r, d):
    m = r.randint(1, 3)
    o = types.SimpleNamespace(ysave=np.array([np.concatenate([arr(r) for _ in range(3)]) for _ in range(m + 1)]), xsave=np.array([r.uniform(0, 1e-4) for _ in range(m + 1)]), count=m)
    return d.process_stepper_output(o)
def mget(r, k):
    p = getattr(k, 'get_' + r.choice(['pump', 'sgnl', 'idlr']))(r.randrange(k.n_saves)); return [p.AW, p.wl_nm, p.AT, k.get_z(0)]
def poling(r, x):
    return [np.array([x.pp(z) for z in (0., 1e-4, 3e-4)]), x.length_mks, x._damage_threshold_mks()]

OPS = dict(arr=lambda r, w: [arr(r)], userarr=lambda r, w: user(r, w), pdict=lambda r, w, p: [p.get_pulse_dict()], userdict=lambda r, w: userdict(r, w),
  pulse=lambda r, w: [new_pulse(r)], pulsearr=lambda r, w, a: [pulse_from(r, a)], pulsedict=lambda r, w, d: [pulse_dict(d)], blank=lambda r, w: [blank(r)],
  clone=lambda r, w, p: [p.create_cloned_pulse() if r.random() < .7 else copy.deepcopy(p)], derive=lambda r, w, p: [derive(r, p)], pset=pset, psetarr=psetarr,
  pload=lambda r, w, d: w.load_pulse_dict(d), pclone=lambda r, w, p: w.clone_pulse(p), pcomp=lambda r, w, c: c.apply_phase_to_pulse(r.uniform(1e-3, 1e-2), w),
  plook=lambda r, w, p: [plook(r, p)], fiber=lambda r, w: [fibre(r)], fiberarr=lambda r, w, a: [fibre(r, a.real[:r.randint(1, 3)])],
  fiberdb=lambda r, w: [fibre_db(r)], fblank=lambda r, w: [fibre_blank(r)], fset=fset, fsetarr=fset, fuse=lambda r, w, f, p: [fuse(r, f, p)],
  xtal=lambda r, w: [xtal(r)], xset=xset, xcopy=lambda r, w, x: [copy.deepcopy(x)], xuse=lambda r, w, x, p: [xuse(r, x, p)],
  beam=lambda r, w, p: [beam(r, p)], bset=lambda r, w: w.set_w0(10**r.uniform(-5, -4)), bmatch=bmatch, buse=lambda r, w, b, p, x: [buse(r, b, p, x)],
  wg=lambda r, w, p: [wg(r, p)], wset=lambda r, w: w.set_Aeff(r.uniform(1, 100)*1e-12), ssfm=lambda r, w: [ssfm(r)], sset=sset, prop=prop, gain=gain, coh=coh, scribble=scribble,
  comp=lambda r, w: [comp(r)], cuse=lambda r, w, c: [[c.calc_theta(np.linspace(900, 1200, 7)), c.calc_compressor_gdd(1030., .01), c.calc_compressor_HOD(1030., .01, 3), np.array([c.calc_dphi_domega(1.8e15, .02)])]],
  ode=lambda r, w, a: [ode(r, a)], odestep=odestep, odewhole=lambda r, w: odewhole(r), pumps=lambda r, w: pumps(r),
  mset=psetarr, mset2=psetarr, dfg=lambda r, w, p, s, x: [dfg(r, p, s, x)], dderiv=lambda r, w, d, a: dderiv(r, d, a), dproc=lambda r, w, d: [dproc(r, d)], mget=lambda r, w, k: [mget(r, k)], poling=lambda r, w, x: [poling(r, x)])

# ---- what a user can see of an object
REF = []
def ref():
    """A pulse nobody else has, on which fibres and crystals are observed."""
    from pynlo.light.PulseBase import Pulse
    p = Pulse(frep_MHz=90., n=16); p.set_time_window_ps(3.); p.set_center_wavelength_nm(1300.); p.set_AT(np.linspace(.2, 1, 16)*np.exp(1j*np.arange(16))); return p
def see(f):
    try: return f()
    except (KeyboardInterrupt, SystemExit, MemoryError, TimeoutError): raise
    except Exception as e: return type(e).__name__
def observe(kind, o):
    if o is None: return {}
    if kind == 'arr': return dict(a=o.copy())
    if kind == 'dict': return {k: copy.deepcopy(v) for k, v in o.items()}
    if kind in ('pulse', 'pump', 'sgnl'):
        return {k: see(lambda: np.copy(getattr(o, k))) for k in ('NPTS', 'time_window_ps', 'center_wavelength_nm', 'frep_MHz', 'AT', 'AW', 'wl_nm', 'W_mks', 'T_ps', 'dF_THz', 'cache_hash')} | dict(epp=see(lambda: o.calc_epp()))
    if kind == 'fiber':
        d = dict(length=o.length, gamma=o.gamma, label=o.fibertype, order=o.poly_order, specs=repr(sorted((k, v) for k, v in o.fiberspecs.items() if k != '_id')))
        d.update(betas=see(lambda: np.copy(o.get_betas(ref()))), betas2=see(lambda: np.copy(o.get_betas(ref(), z=.005))), gain=see(lambda: np.copy(o.get_gain(ref(), 1.))), g=see(lambda: o.get_gamma(.004)))
        return d
    if kind == 'xtal':
        d = dict(mode=o.mode, deff=o.deff, n2=getattr(o, 'n2', None), L=o.length_mks, T=getattr(o, 'T', None), theta=getattr(o, 'theta', None), sell=getattr(o, 'sellmeier_type', None), cache=o._enable_caching, dam=o._damage_threshold_mks(), info=str(o._crystal_properties))
        d['n'] = see(lambda: np.copy(o.get_pulse_n(ref()))); d['k'] = see(lambda: np.copy(o.get_pulse_k(ref())))
        if hasattr(o, 'theta'): d['o'] = see(lambda: np.copy(o.get_pulse_n(ref(), 'o'))); d['e'] = see(lambda: np.copy(o.get_pulse_n(ref(), 'e')))
        if hasattr(o, 'pp'): d['pp'] = see(lambda: np.array([o.pp(z) for z in (0., 1e-4)]))
        return d
    if kind == 'beam': return dict(w=np.copy(o.waist), z=see(lambda: o.calculate_zR(1.3)), ax=o.axis, w1=see(lambda: o.calculate_waist(.01)), a=see(lambda: o.rtP_to_a(1.2)))
    if kind == 'wg': return dict(a=o.Aeff, ax=o.axis, r=see(lambda: o.rtP_to_a(1.2)), l=np.copy(o._lambda0))
    if kind == 'ssfm': return {k: see(lambda: copy.copy(getattr(o, k))) for k in ('local_error', 'dz', 'disable_Raman', 'disable_self_steepening', 'USE_SIMPLE_RAMAN', 'f_R', 'f_R0', 'tau_1', 'tau_2', 'method', 'suppress_iteration', 'eta')}
    if kind == 'obs': return {str(i): (np.copy(a) if isinstance(a, np.ndarray) else a) for i, a in enumerate(o)}
    if kind == 'ode':
        s = o.s; d = dict(x=s.x, y=np.copy(s.y), hnext=s.hnext, hdid=s.hdid, n=o.q.n, at=s.atol, rt=s.rtol)
        if s.hdid: d['dense'] = see(lambda: np.copy(s.dense_out(s.xold + .37*s.hdid, s.hdid)))
        return d
    if kind == 'dfg':
        d = dict(y=np.copy(o.ystart), L=o.crystal.length_mks)
        def rate():
            out = np.zeros(3*N, complex); o.deriv(1.7e-5, np.exp(1j*np.arange(3*N)), out); return out
        d['rate'] = see(rate)
        if o.crystal.mode == 'PP': d['poling'] = see(lambda: np.array([o.poling(z) for z in (0., 1.7e-5, 4e-5, 9e-5)]))
        return d
    if kind == 'mres':
        return dict(n=o.n_saves, **{'%s%d' % (k, i): see(lambda: np.copy(getattr(o, 'get_' + k)(i).AW)) for k in ('pump', 'sgnl', 'idlr') for i in range(o.n_saves)}, z=see(lambda: [o.get_z(i) for i in range(o.n_saves)]))
    if kind == 'comp': return dict(d=o.d, g=o.g, t=see(lambda: o.calc_theta(1030.)), gdd=see(lambda: o.calc_compressor_gdd(1030., .01)), h=see(lambda: o.calc_compressor_HOD(1030., .01, 3)), p=see(lambda: o.calc_dphi_domega(1.8e15, .02)))
    raise KeyError(kind)

def same(a, b, tol):
    if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and not (a and isinstance(a[0], (int, float)) ): return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or a is None or isinstance(b, str) or b is None: return type(a) == type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: return False
    if a.dtype.kind in 'USOb' or b.dtype.kind in 'USOb': return np.array_equal(a, b)
    fa = np.isfinite(a); 
    if not np.array_equal(fa, np.isfinite(b)): return False
    if a.size == 0 or not fa.any(): return True
    a, b = a[fa], b[fa]
    return bool(np.all(np.abs(a - b) <= tol*max(np.max(np.abs(a)), np.max(np.abs(b)))))
def differ(a, b, tol): return [k for k in sorted(set(a) | set(b)) if k not in a or k not in b or not same(a[k], b[k], tol)]

def whole(tr, seed, frames=True):
    """Run everything; after each operation nothing but its object may have changed."""
    w = World(seed); kinds = {i + 1: s['k'] for i, s in enumerate(tr['sl'])}; last = {}; bad = []
    for t, s in enumerate(tr['h'], 1):
        w.do(t, s)
        if frames:
            now = {i: observe(kinds[i], w.objs[i]) for i in w.objs if i != s['w'] or 1}
            for i in last:
                if i != s['w']:
                    d = differ(last[i], now[i], 1e-11)
                    if d: bad.append((t, s['n'], i, kinds[i], d))
            last = now
    return dict(out=w.out, obs={i: observe(kinds[i], o) for i, o in w.objs.items()}, bad=bad)
def slice_of(tr, seed, sl, want):
    w = World(seed)
    for t in sorted(sl): w.do(t, tr['h'][t - 1])
    return dict(out=w.out, obs={i: observe(tr['sl'][i - 1]['k'], w.objs.get(i)) for i in want})

def forked(fn, *a, seconds=100):
    """fn(*a) in a child of this process; its result, or an error text."""
    import tempfile
    r, w = os.pipe(); sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.setitimer(signal.ITIMER_REAL, 0); signal.alarm(seconds)
            os.close(r); dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
            try: res = (True, fn(*a))
            except BaseException as e:
                import traceback
                res = (False, '%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-800:]))
            with os.fdopen(w, 'wb') as f: pickle.dump(res, f)
            code = 0
        finally: os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f: data = f.read()
    st = os.waitpid(pid, 0)[1]
    if not data: return False, 'the process ended without an answer (status %d%s)' % (st, ', it was stopped after %d s' % seconds if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else '')
    return pickle.loads(data)

def imports():
    import pynlo.light.DerivedPulses, pynlo.light.beam, pynlo.light.high_V_waveguide, pynlo.media.fibers.fiber, pynlo.interactions.FourWaveMixing.SSFM
    import pynlo.interactions.ThreeWaveMixing.DFG_integrand, pynlo.devices.grating_compressor, pynlo.util.ode_solve, pynlo.util.ode_solve.dopr853
    from pynlo.media.crystals import XTAL_PPLN, XTAL_AgGaS, XTAL_AgGaSe2
    import scipy.optimize, scipy.signal, scipy.integrate, matplotlib.pyplot
    try:                                                 # make the transforms' plans the same in every process
        import pyfftw
        for n in (16, 32, 64):
            a, b = pyfftw.empty_aligned(n, dtype='complex128'), pyfftw.empty_aligned(n, dtype='complex128')
            for d in ('FFTW_FORWARD', 'FFTW_BACKWARD'): pyfftw.FFTW(a, b, direction=d)
    except ImportError: pass

def judge(job):
    """One history: whole, then every object alone.  Returns (problem or None, operations compared, failures)."""
    tr, seed = job
    t0 = time.monotonic(); ok, full = forked(whole, tr, seed); dear = time.monotonic() - t0 > 6
    if not ok: return ('running the history: ' + full, 0, {})
    if full['bad']:
        t, n, i, k, d = full['bad'][0]
        return ('step %d (%s): object %d (%s), which it does not write, shows another %s' % (t, n, i, k, ', '.join(d)), 0, {})
    if dear: return (None, 0, {})        # a chance draw of a very long propagation: not worth running a dozen times
    groups = {}
    for i, s in enumerate(tr['sl'], 1): groups.setdefault(tuple(sorted(s['sl'])), []).append(i)
    steps = 0
    for sl, want in sorted(groups.items()):
        if len(sl) == len(tr['h']): continue
        ok, alone = forked(slice_of, tr, seed, sl, want)
        if not ok: return ('running %s alone: %s' % (sl, alone), steps, {})
        for t in sl:
            if alone['out'][t] != full['out'][t]: return ('step %d (%s) ends with %s in the history and with %s when run with only what it depends on, steps %s' % (t, tr['h'][t - 1]['n'], full['out'][t], alone['out'][t], list(sl)), steps, {})
        for i in want:
            d = differ(full['obs'][i], alone['obs'][i], 1e-8)
            if d: return ('object %d (%s) shows another %s in the history than when made by its own steps %s alone: %s / %s' % (i, tr['sl'][i - 1]['k'], ', '.join(d), list(sl), str(full['obs'][i][d[0]])[:150], str(alone['obs'][i].get(d[0]))[:150]), steps, {})
        steps += len(sl)
    return (None, steps, full['out'])
