"""C10: every integration is independent of all others, to the last bit."""
import json, os, subprocess, sys
from vlib import tlc, solo
from vlib.check import Mismatch, VERIF

def baseline(seed):
    p = subprocess.run([sys.executable, '-B', '-m', 'vlib.solo', str(seed)], cwd=VERIF, capture_output=True, text=True, timeout=120)
    if p.returncode: raise Mismatch('the integrations fail on their own: %s' % p.stderr[-500:])
    return {(i, w): res for i, w, res in map(json.loads, p.stdout.strip().split('\n'))}

def run(c):
    base = c.replay(dict(baseline=1), lambda t: baseline(c.seed), label='solo runs', seconds=120, sample=False)
    if c.violations: return
    probs = solo.problems(c.seed)
    jobs = [(('OdeInterleave', dict(PROBS=set(range(1, 7)), SLOTS=3, KMAX=8, DEPTH=c.scale(24, 40), SIM=True)),
             dict(invariants=['Emit'], properties=['OthersUntouched'], simulate=c.scale(90, 2500), depth=60, seed=c.seed*43)),
            (('OdeInterleave', dict(PROBS={2, 3}, SLOTS=2, KMAX=2, DEPTH=c.scale(3, 4), SIM=False)), dict(invariants=['Emit'], properties=['OthersUntouched']))]
    import random
    for b, rs in enumerate(tlc.many(jobs)):
        c.tlc(rs)
        lines = rs.lines
        if b: random.Random(c.seed).shuffle(lines)
        for tr in lines[:c.scale(220, 8000)]:
            c.replay(tr, lambda t: replay(c, t, probs, base), label='schedule')
            if len(c.violations) >= 5: return

class Boom(Exception): pass

def replay(c, tr, probs, base):
    slots = {}
    def check(s, where):
        st, rhs, p, k = slots[s]
        if solo.state(st) != base[(p, 'steps')]['steps'][k]:
            raise Mismatch('%s: slot %d (problem %d) after %d steps differs from the same integration alone (x=%r h=%r)' % (where, s, p, k, st.x, st.hnext))
        c.steps += 1
    def step(s):
        st, rhs, p, k = slots[s]
        st.step(st.hnext, rhs); slots[s] = (st, rhs, p, k+1)
    def whole(p, n, where):
        if solo.whole(probs[p], n) != base[(p, str(n))]['whole']: raise Mismatch('%s: whole integration of problem %d differs from the same run alone' % (where, p))
    for i, e in enumerate(tr['h']):
        op, s, a = e['op'], e['s'], e['a']
        where = 'event %d %s slot %d %s' % (i, op, s, a)
        if op == 'create':
            st, rhs = solo.make(probs[a[0]]); slots[s] = (st, rhs, a[0], 0)
        elif op == 'step': step(s)
        elif op == 'nested':
            slots[s][1].arm(a[1], lambda: whole(a[0], -1, where)); step(s)
        elif op == 'inside':
            slots[s][1].arm(a[1], lambda: step(a[0])); step(s)
            check(a[0], where)
        elif op == 'abort':
            def boom(): raise Boom()
            slots[s][1].arm(a[0], boom)
            try: step(s)
            except Boom: pass
            else: raise Mismatch(where + ': the error of the right-hand side was swallowed')
            del slots[s]
        else: whole(a[0], a[1], where)
        if e['k'] >= 0 and op != 'whole': check(s, where)
    for s in slots: check(s, 'end')
