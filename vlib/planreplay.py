"""Replays FibrePlan: rewritten propagations give the same result, with solvers shared or fresh."""
import math, random
import numpy as np
from vlib.check import Mismatch
from vlib import fibres as F
from vlib.fibrereplay import snapshot, same

LEN = 12
def problem(r, flags, plain=False):
    kind = r.choice(['sech', 'sech', 'gauss', 'chirped', 'two'] + ([] if flags['raman'] or flags['steep'] else ['soliton']))
    N = r.choice([64, 96, 128, 256]); T0 = r.uniform(.06, 1.0) if flags['raman'] or flags['steep'] else 10**r.uniform(-1.5, 1)
    win = T0*max(N/9, 12) if N <= 128 else 20*T0
    if kind == 'soliton': N, win = r.choice([(128, 30*T0), (256, 36*T0)])
    if flags['raman'] and r.random() < .6: N, T0 = 256, r.uniform(.1, .135); win = 20*T0        # resolves the Raman response
    if not flags['raman'] and not flags['steep'] and kind != 'soliton' and r.random() < .2: N, win = N + 1, win*(N + 1)/N
    T = (np.arange(N) - N//2)*win/N
    wl = r.choice([800.0, 1550.0, 1030.0]); L = 10**r.uniform(-2, 2)
    z = r.uniform(.2, .7); order = r.uniform(.3, 2.0) if kind != 'soliton' else 1.0      # dispersion lengths, soliton order
    if kind == 'soliton': z = r.uniform(.3, 3)
    b2 = -z*T0**2/L if kind == 'soliton' else r.choice([-1, 1])*z*T0**2/L
    b3 = 0 if kind == 'soliton' else r.uniform(-.4, .4)*z*T0**3/L
    g = 10**r.uniform(-3, 1); P = order**2*abs(b2)/(g*T0**2)
    x = T/T0
    A = dict(sech=1/np.cosh(x), gauss=np.exp(-x**2/2)*np.exp(.7j), chirped=np.exp(-x**2/2*(1 + 1j*r.uniform(-1, 1))),
             two=.7/np.cosh(x - 1.5) + .5j/np.cosh(x + 1.2), soliton=1/np.cosh(x))[kind]*math.sqrt(P)
    gain = r.choice([0, 0, r.uniform(-1, 1)/L]) if kind != 'soliton' else 0
    return dict(kind=kind, N=N, win=win, wl=wl, L=L, betas=(b2, b3), gamma=g, gain=gain, A=A, T0=T0, z=z, flags=flags, base={})

def solver(flags, r, L):
    from pynlo.interactions.FourWaveMixing import SSFM
    return SSFM.SSFM(local_error=1e-8, dz=L*10**r.uniform(-3, 0), disable_Raman=not flags['raman'], disable_self_steepening=not flags['steep'], USE_SIMPLE_RAMAN=flags['simple'])

def base(c, p, r, where):
    """The plain run, one output per unit, and the facts that hold for it."""
    if p['base']: return p['base']
    pu = F.pulse(p['N'], p['win'], p['wl'], AT=p['A']); f = F.fibre(p['L'], p['betas'], p['gamma'], p['wl'], p['gain'])
    z, AW, AT, out = solver(p['flags'], r, p['L']).propagate(pu, f, LEN)
    b = p['base'] = dict(AT=np.array(AT), out=np.array(out.AT))
    W, V = pu.W_THz, pu.V_THz
    en = lambda a: float(np.sum(np.abs(a)**2))
    grow = math.exp(p['gain']*p['L'])
    what = '%s (%s, Raman %s, self-steepening %s)' % (where, p['kind'], p['flags']['raman'], p['flags']['steep'])
    if not p['flags']['steep']:
        e = en(out.AW)/en(pu.AW)/grow - 1
        if not abs(e) < 1e-6: raise Mismatch('%s: energy changes by %.2e' % (what, e))
        for i in range(LEN):
            e = en(AW[:, i])/en(pu.AW)/math.exp(p['gain']*p['L']*(i + 1)/LEN) - 1
            if not abs(e) < 3e-6: raise Mismatch('%s: energy at output %d changes by %.2e' % (what, i + 1, e))
        if p['flags']['raman'] and p['win']/p['N'] < .011 and p['win'] >= 2:
            mv = lambda a: float(np.sum(V*np.abs(a)**2))/en(a)
            ms = [mv(pu.AW)] + [mv(AW[:, i]) for i in range(LEN)]
            bw = math.sqrt(max(float(np.sum(V**2*np.abs(pu.AW)**2))/en(pu.AW), 0))
            if any(b_ > a_ + 1e-6*bw for a_, b_ in zip(ms, ms[1:])): raise Mismatch('%s: Raman scattering raises the mean frequency: %s' % (what, ms))
    elif p['gain'] == 0:
        ph = lambda a: float(np.sum(np.abs(a)**2/W))
        e = ph(out.AW)/ph(pu.AW) - 1; e0 = en(out.AW)/en(pu.AW) - 1
        if not abs(e) < 2e-5: raise Mismatch('%s: photon number changes by %.2e (energy by %.2e)' % (what, e, e0))
    if p['kind'] == 'soliton':
        for i in range(LEN):
            w = p['A']*np.exp(.5j*p['z']*(i + 1)/LEN)
            e = np.max(np.abs(AT[:, i] - w))/np.max(np.abs(w))
            if not e < 1e-4: raise Mismatch('%s: a fundamental soliton is off by %.2e at output %d' % (what, e, i + 1))
    return b

def plan(c, pl, probs, solvers, r, where, stats):
    from pynlo.interactions.FourWaveMixing import SSFM, global_variables as gv
    p = probs[pl['prob'] - 1]; b = base(c, p, r, where)
    k = 2.0**pl['pow']; ph = np.exp(2j*np.pi*pl['turn']/16)
    act = lambda a: np.roll(a, pl['roll'])*ph*math.sqrt(k)
    cur = F.pulse(p['N'], p['win'], p['wl'], AT=act(p['A']), frep=r.choice([100.0, 1.0]))
    pos = 0; old = (SSFM.PYFFTW_AVAILABLE, gv.PRE_FFTSHIFT)
    scale = math.sqrt(k)*np.max(np.abs(b['AT']))
    for j, q in enumerate(pl['pieces']):
        if q['null']: f = F.fibre(r.uniform(.1, 10), (0.0,), 0.0, p['wl'])
        else: f = F.fibre(p['L']*q['len']/LEN, p['betas'], p['gamma']/k, p['wl'], p['gain'])
        s = solvers.setdefault(q['s'], solver(p['flags'], r, p['L'])) if q['s'] else solver(p['flags'], r, p['L'])
        snap = snapshot(cur)
        try:
            SSFM.PYFFTW_AVAILABLE = old[0] and q['fast']; gv.PRE_FFTSHIFT = q['shift']
            z, AW, AT, out = s.propagate(cur, f, q['n'])
        finally: SSFM.PYFFTW_AVAILABLE, gv.PRE_FFTSHIFT = old
        same(snap, snapshot(cur), where + ': the input pulse')
        for i in range(q['n']):
            at = pos if q['null'] else pos + q['len']*(i + 1)//q['n']
            want = act(b['AT'][:, at - 1] if at else p['A'])
            e = np.max(np.abs(AT[:, i] - want))/scale; stats.append(e)
            if not e < 1e-5: raise Mismatch('%s: piece %d, output %d at %d/12 of the fibre differs by %.2e from the plain run (%s, %s)' % (where, j, i + 1, at, e, p['kind'], q))
        if not q['null']: pos += q['len']
        cur = out
    want = act(b['out']); e = np.max(np.abs(cur.AT - want))/scale; stats.append(e)
    if not e < 1e-5: raise Mismatch('%s: result differs by %.2e from the plain run (%s)' % (where, e, p['kind']))
    c.steps += len(pl['pieces'])

def replay(c, tr, seed, stats=None, share=False):
    r = random.Random(seed); stats = [] if stats is None else stats
    raman = r.random() < .5
    flags = dict(raman=raman, steep=r.random() < .5, simple=r.random() < .5)
    probs = [problem(r, flags) for _ in range(3)]; solvers = {}
    if share:                # every piece on one of two solvers
        for pl in tr['h']:
            for q in pl['pieces']: q['s'] = q['s'] or r.choice([1, 2])
    for i, pl in enumerate(tr['h']): plan(c, pl, probs, solvers, r, 'plan %d' % i, stats)

I = ['Emit', 'TypeOK', 'Whole']
def job(num, seed, sess=3, steps=6):
    return (('FibrePlan', dict(PROBS=3, LEN=LEN, SESS=sess, STEPS=steps, SIM=True)), dict(invariants=I, properties=['KeepsMeaning'], simulate=num, depth=sess*(steps + 1) + 2, seed=seed))
def design(deep): return (('FibrePlan', dict(PROBS=1, LEN=4, SESS=1, STEPS=3 if deep else 2, SIM=False)), dict(invariants=I, properties=['KeepsMeaning'], workers=4))
