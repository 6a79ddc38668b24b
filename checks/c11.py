"""C11: the adaptive step machine of fibre propagation."""
import math, random
import numpy as np
from vlib import tlc, fibres
from vlib.check import Mismatch

UNIT = 1 << 28
STARTS = {60001, 1234577, 1 << 24, 1 << 25, 1 << 27, 300000001, 99990001, 40000, 1 << 20}
INV = dict(invariants=['Emit', 'NeverBeyond', 'Covered', 'Complete'], properties=['Discarded', 'Kept', 'OnlyAtMinimum'])
def job(seed, sim, **k):
    a = dict(DIST=UNIT, DZMIN=1, STARTS=STARTS, SEGS=1, DEPTH=6, SIM=sim, MARGIN=250); a.update(k)
    kw = dict(INV)
    if sim: kw.update(simulate=sim, depth=a['DEPTH'] + 2, seed=seed)
    a['SIM'] = bool(sim)
    return (('FibreSteps', a), kw)

def run(c):
    r = random.Random(c.seed*101)
    # real runs first: what they did is handed to the specification
    recs = []
    for k in range(c.scale(30, 300)):
        c.replay(dict(run=k, seed=r.random()), lambda t: recs.extend(record(c, t)), label='real run', sample=False)
        if len(c.violations) >= 5: return
    q = c.scale(1, 8)
    jobs = [job(0, 0, DEPTH=c.scale(6, 7), STARTS=STARTS if c.thorough else {60001, 1234577, 1 << 24, 1 << 27}),
            job(0, 0, DEPTH=6, DZMIN=1 << 23, STARTS={1 << 24, 99990001, 1 << 27}),
            job(c.seed*3+1, 300*q, DEPTH=60, SEGS=2), job(c.seed*3+2, 300*q, DEPTH=60, SEGS=2, DZMIN=1 << 14),
            job(c.seed*3+3, 300*q, DEPTH=40, SEGS=2, DZMIN=1 << 19), job(c.seed*3+5, 200*q, DEPTH=40, SEGS=3, DZMIN=1 << 24)]
    recs = [x for x in recs if x['c'] and x['start'] >= 1 << 18]
    tr = [dict(start=x['start'], c=x['c']) for x in recs]
    jobs.append((('FibreTrace', dict(DIST=UNIT, DZMIN=1, STARTS={x['start'] for x in tr} or {1}, SEGS=1, DEPTH=100000, SIM=False, MARGIN=1200, TRACES=tr)),
                 dict(spec='TSpec', invariants=['TEmit', 'NeverBeyond', 'Complete'])))
    rs = tlc.many(jobs)
    for x in rs: c.tlc(x)
    got = {x['id']: x for x in rs[-1].lines}
    for i, x in enumerate(recs, 1):
        c.replay(dict(recorded=x, spec=got.get(i)), lambda t: judge(c, t), label='recorded run')
    ls = rs[0].lines + rs[1].lines; r.shuffle(ls)
    sims = [l for x in rs[2:-1] for l in x.lines]
    for t in ls[:c.scale(1500, 15000)] + sims:
        c.replay(t, lambda t: scripted(c, t, r.random()), label='steps')
        if len(c.violations) >= 5: return

class Stop(Exception): pass

def scripted(c, tr, seed):
    from pynlo.interactions.FourWaveMixing import SSFM
    r = random.Random(seed)
    segs = max(h['s'] for h in tr['h']) if not tr['done'] else tr['h'][-1]['s']
    nseg = segs if tr['done'] else segs + r.choice([0, 1])
    D = 10**r.uniform(-4, 1) if tr['min'] == 1 else 1e-12*tr['dist']/tr['min']
    u = D/tr['dist']; tol = 10**r.uniform(-7, -3); N = r.choice([8, 16, 64])
    h = tr['h']; i0, i1 = r.sample(range(N), 2)
    st = dict(calls=[], pos=0.0, acc=0.0, trial=0, loose=False, todo=None)
    total = D*nseg
    class S(SSFM.SSFM):
        def Advance(self, A, dz, *more, **named):
            for direction in list(more[:1]) + [named.get('direction', 1)]:
                if direction != 1: raise Mismatch('direction %r' % (direction,))
            A = np.array(A)
            st['calls'].append((dz, A[i0].real - 1))
            k = st['trial']
            if len(st['calls']) == 1:
                if k >= len(h): raise Stop()
            q = tr['h'][k]
            cl = q['c']
            cur = st['calls']
            A[i0] += dz/total
            A[i1] = 1
            small = min(x[0] for x in cur); 
            if len(cur) == 1: st['first'] = dz
            coarse = dz > 1.5*small or (len(cur) == 1 and dz > 1.5*q['dz']*u)
            if coarse:
                lo, hi = dict(H=(1.02, r.choice([5, 1e4 if q['ok'] is False else 5])), K=(1.02/2*2, 1.98), S=(.51, .99), G=(0, .49))[cl]
                d = tol*r.uniform(lo, hi) if r.random() < .9 or cl != 'G' else 0.0
                if cl == 'H': d = tol*2*r.uniform(lo, hi)
                B = A.copy(); nrm = np.linalg.norm(B)
                A[i1] = 1 + d*nrm*np.exp(1j*r.uniform(0, 6.28)) if d else 1
            if len(cur) == 3: finish(k, q)
            return A
        RK4IP = Advance                     # whichever of the two the integrator calls
    def finish(k, q):
        cur = st['calls']; st['calls'] = []
        hs = sorted(x[0] for x in cur)
        half = hs[0]
        if abs(hs[1] - half) > 1e-12*half or abs(hs[2] - 2*half) > 1e-12*half:
            raise Mismatch('trial %d uses steps %s: specification one of twice the half step and two halves' % (k, hs))
        where = 'trial %d (class %s, segment %d)' % (k, q['c'], q['s'])
        if not half > 0: raise Mismatch('%s: step %r' % (where, half))
        first = k == 0 or h[k-1]['s'] != q['s']
        if first and q['s'] > 1 and abs(half - q['dz']*u) > (1e-6*q['dz'] + 300)*u: raise Stop()        # another carried over step is allowed
        if abs(half - q['dz']*u) > (1e-6*q['dz'] + 300)*u: raise Mismatch('%s: half step %r, specification %r (remaining %r)' % (where, half, q['dz']*u, D*q['s'] - st['acc']))
        starts = [x[1]*total for x in cur]
        lo = min(starts)
        if abs(lo - st['acc']) > 1e-9*total or sum(abs(x - lo) < half*.01 + 1e-10*total for x in starts) < 2:
            raise Mismatch('%s: starts from %s, specification %r' % (where, starts, st['acc']))
        if q['ok']: st['acc'] += 2*half
        if st['acc'] > D*q['s']*(1 + 1e-12): raise Mismatch('%s: went beyond the segment: %r of %r' % (where, st['acc'], D*q['s']))
        st['trial'] += 1; c.steps += 1
        if not tr['done'] and st['trial'] >= len(h): raise Stop()
    s = S(local_error=tol, dz=tr['start']*u, disable_Raman=True, disable_self_steepening=True)
    p = fibres.pulse(N, AT=np.ones(N)); f = fibres.fibre(total)
    try:
        z, AW, AT, out = s.propagate(p, f, nseg)
    except Stop:
        return
    if not st['trial'] and not st['calls']: c.notes['hook_unused'] = c.notes.get('hook_unused', 0) + 1; return
    if not tr['done']: raise Mismatch('the propagation ended after %d trials' % st['trial'])
    if st['trial'] != len(h): raise Mismatch('the propagation ended after %d trials, specification %d' % (st['trial'], len(h)))
    if abs(st['acc'] - total) > 1e-12*total: raise Mismatch('covered %r of %r' % (st['acc'], total))
    # what arrives shows the distance the field was advanced by
    got = np.max(np.real(out.AT)) - 1
    if abs(got - 1) > 1e-9 + 1e-12*len(h): raise Mismatch('the returned pulse was advanced by %r of the fibre' % got)
    for i in range(nseg):
        if abs(np.max(np.real(AT[:, i])) - 1 - (i + 1)/nseg) > 1e-5: raise Mismatch('column %d shows position %r' % (i, np.max(np.real(AT[:, i])) - 1))

def record(c, t):
    """A real propagation with every trial noted; returns one trace per segment."""
    from pynlo.interactions.FourWaveMixing import SSFM
    r = random.Random(t['seed'])
    N = r.choice([32, 64, 128]); nseg = r.choice([1, 1, 2, 4]); tol = 10**r.uniform(-7, -3)
    win = r.uniform(2, 10); T = (np.arange(N) - N/2)*win/N; w = r.uniform(.03, .15)*win
    kind = r.choice(['pulse', 'pulse', 'noise', 'zero', 'linear', 'cw'])
    P = 10**r.uniform(0, 3); L = 10**r.uniform(-2, 1)
    A = np.sqrt(P)/np.cosh(T/w)*np.exp(1j*r.uniform(-3, 3)*T)
    if kind == 'noise': A = np.sqrt(P)*np.exp(1j*np.array([r.uniform(0, 6) for _ in T]))*np.exp(-(T/w)**2)
    if kind == 'zero': A = 0*A
    if kind == 'cw': A = np.sqrt(P)*np.ones(N)
    ld = L/r.choice([.3, 2, 5]) if kind != 'linear' else L/20
    b2 = r.choice([-1, 1])*w**2/ld
    g = 0.0 if kind == 'linear' else r.choice([.5, 3, 12])/(P*L)
    f = fibres.fibre(L, (b2, r.uniform(-1, 1)*w**3/ld), g, gain=r.choice([0, 0, r.uniform(-2, 2)/L]))
    dz0 = L*10**r.uniform(-2, 1)
    log = []
    class S(SSFM.SSFM):
        def RK4IP(self, A, dz, *more, **named):
            a = np.array(A); b = super().RK4IP(A, dz, *more, **named)
            log.append((dz, a, np.array(b)))
            return b
    s = S(local_error=tol, dz=dz0, disable_Raman=r.random() < .5, disable_self_steepening=r.random() < .5)
    p = fibres.pulse(N, win, AT=A)
    z, AW, AT, out = s.propagate(p, f, nseg)
    D = L/nseg; u = D/UNIT
    if not log: c.notes['hook_unused'] = c.notes.get('hook_unused', 0) + 1; return []
    if len(log) % 3: raise Mismatch('%d advances' % len(log))
    trials = []
    for k in range(0, len(log), 3):
        tri = log[k:k+3]
        half = min(x[0] for x in tri)
        coarse = [x for x in tri if x[0] > 1.5*half]; fine = [x for x in tri if x[0] <= 1.5*half]
        if len(coarse) != 1 or abs(coarse[0][0] - 2*half) > 1e-12*half: raise Mismatch('trial %d of steps %s' % (k//3, [x[0] for x in tri]))
        if not np.array_equal(coarse[0][1], fine[0][1]) or not np.array_equal(fine[0][2], fine[1][1]):
            raise Mismatch('trial %d: one step of twice the length and two single ones do not start from the same field' % (k//3))
        af, ac = fine[1][2], coarse[0][2]
        d = np.linalg.norm(af - ac); nf = np.linalg.norm(af)
        d = d/nf if nf else d
        trials.append(dict(half=half, d=np.inf if np.isnan(d) else d, a=coarse[0][1], fine=af))
    # split into segments: the specification says which trials are kept
    out, k = [], 0
    while k < len(trials):
        if abs(trials[k]['half']) > D/2*(1 + 1e-12): raise Mismatch('first half step %r of a segment of %r' % (trials[k]['half'], D))
        if k == 0 and abs(trials[0]['half'] - min(dz0, D/2)) > 1e-12*D: raise Mismatch('first half step %r, configured %r, segment %r' % (trials[0]['half'], dz0, D))
        seg = dict(start=int(round(trials[k]['half']/u)), c=[], half=[], L=D)
        acc = 0.0; cut = False
        while k < len(trials) and acc < D*(1 - 1e-9):
            x = trials[k]; e = x['d']/tol
            if not np.all(np.isfinite(x['a'])): raise Mismatch('trial %d starts from a field that is not finite' % k)
            if min(abs(e - 2), abs(e - 1), abs(e - .5)) < 1e-6: cut = True
            cl = 'H' if e > 2 else 'K' if e >= 1 else 'S' if e >= .5 else 'G'
            if not cut: seg['c'].append(cl); seg['half'].append(x['half']/u)
            if cl != 'H' or x['half']/2 < 1e-12:
                acc += 2*x['half']
            else:
                if k + 1 < len(trials) and not np.array_equal(trials[k+1]['a'], x['a']): raise Mismatch('trial %d is above twice the tolerance (%r) but its field was not discarded' % (k, e))
            k += 1
        seg['cut'] = cut
        while k < len(trials) and trials[k]['half'] < 1e-9*D: acc += 2*trials[k]['half']; k += 1     # rounding leftovers
        if abs(acc - D) > 1e-11*D: raise Mismatch('kept steps add up to %r of %r' % (acc, D))
        out.append(seg)
        if len(out) > nseg: raise Mismatch('more than %d segments were advanced' % nseg)
    if len(out) != nseg: raise Mismatch('%d segments advanced, %d requested' % (len(out), nseg))
    for s_ in out: c.steps += len(s_['c'])
    return out

def judge(c, t):
    x, sp = t['recorded'], t['spec']
    if sp is None: return
    for k, (a, h) in enumerate(zip(x['half'], sp['h'])):
        if abs(a - h['dz']) > 30 + 2*k + UNIT*(.6/x['start'] + 6e-9) + 1e-6*h['dz']: raise Mismatch('trial %d: half step %r of the segment, specification %r (classes so far %s)' % (k, a/UNIT, h['dz']/UNIT, ''.join(x['c'][:k])))
        c.steps += 1
    if sp['done'] and not x['cut'] and len(sp['h']) != len(x['c']): raise Mismatch('%d trials, specification %d' % (len(x['c']), len(sp['h'])))
