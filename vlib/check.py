"""The frame every check runs in: imports the code under test from /repo, collects
violations, writes evidence and replay files, prints the verdict."""
import io, json, os, signal, sys, tempfile, time, traceback, contextlib, hashlib, random, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

class Mismatch(Exception):
    """The real code did something the specification does not allow."""

class Timeout(Exception): pass

@contextlib.contextmanager
def limit(seconds):
    def h(*a): raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try: yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)

def setup_repo():
    """Make `import pynlo` come from /repo's current working tree, with no stale bytecode."""
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'nopyc_%d' % os.getpid())
    src = os.path.join(REPO, 'src')
    sys.path[:] = [src] + [p for p in sys.path if os.path.abspath(p or '.') != src]
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')

class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        try: self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError: self.seed = 1
        self.level = level
        self.t0 = time.time()
        self.states = 0; self.transitions = 0; self.traces = 0; self.steps = 0
        self.samples = []; self.assumptions = []; self.notes = {}
        self.violations = []          # (key, message, replay object)
        self.rng = random.Random(self.seed * 7919 + int(hashlib.sha1(prop.encode()).hexdigest()[:6], 16))
    @property
    def thorough(self): return self.tier == 'thorough'
    def scale(self, quick, thorough): return thorough if self.thorough else quick

    # ---- model side
    def tlc(self, res, what=None):
        self.states += res.states; self.transitions += res.transitions
        if what: self.notes[what] = self.notes.get(what, 0) + res.states
        return res

    # ---- implementation side
    def replay(self, trace, fn, label='trace', seconds=60, sample=True):
        """Run fn(trace) against the real code; anything but a clean return is a violation."""
        self.traces += 1
        if sample and len(self.samples) < 3: self.samples.append(shorten(trace))
        buf = io.StringIO()
        try:
            with limit(seconds), contextlib.redirect_stdout(buf):
                return fn(trace)
        except Mismatch as e:
            self.violation(label, str(e), trace)
        except Timeout:
            self.violation(label, 'did not finish within %s s' % seconds, trace)
        except MemoryError: raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if REPO in f.filename][-1:] or tb[-1:]
            self.violation(label, 'unexpected %s: %s at %s:%s' % (type(e).__name__, e, where[0].filename, where[0].lineno), trace)
        return None

    def replay_many(self, traces, fn, label='trace', seconds=60, procs=7):
        """replay() on every trace, in forked processes; returns the results in order. fn draws its randomness from the trace's own seed."""
        import multiprocessing as mp
        ctx = mp.get_context('fork'); out = [None]*len(traces); kids = []
        procs = max(1, min(procs, len(traces)))
        def work(k, conn):
            self.traces = self.steps = 0; self.notes = {}; self.samples = []; self.violations = []; res = []
            for i in range(k, len(traces), procs):
                res.append((i, self.replay(traces[i], fn, label, seconds, sample=k == 0)))
                if len(self.violations) >= 3: break
            conn.send((res, self.traces, self.steps, self.notes, self.samples, self.violations)); conn.close()
        for k in range(procs):
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(k, b)); p.start(); b.close(); kids.append((p, a))
        for p, a in kids:
            try: res, t, s, notes, samples, viol = a.recv()
            except EOFError:
                p.join()
                if p.exitcode is not None and p.exitcode < 0 and -p.exitcode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS):
                    self.violation(label, 'the code under test ended the process with signal %d' % -p.exitcode); continue
                raise RuntimeError('a replay process ended with %s' % p.exitcode)
            p.join(); self.traces += t; self.steps += s
            for i, v in res: out[i] = v
            for n, v in notes.items():
                o = self.notes.get(n)
                self.notes[n] = v if o is None else max(o, v) if isinstance(v, float) else o + v if isinstance(v, int) else v
            self.samples = (self.samples + samples)[:3]
            for v in viol: self.violation(*v)
        return out

    def violation(self, label, msg, trace=None):
        if len(self.violations) < 50: self.violations.append((label, msg, trace))

    def finish(self):
        known = load_known(self.prop)
        fresh, seen_known = [], {}
        for label, msg, trace in self.violations:
            k = next((k for k in known if k['match'] in (label + ' ' + msg)), None)
            if k: seen_known[k['match']] = k
            else: fresh.append((label, msg, trace))
        for k in known: print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                steps_compared=self.steps, samples=self.samples or ['none'], **self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        if not fresh:
            print('OK property=%s tier=%s states=%d transitions=%d traces=%d steps=%d wall=%.1fs' %
                  (self.prop, self.tier, self.states, self.transitions, self.traces, self.steps, time.time() - self.t0))
            return 0
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        for i, (label, msg, trace) in enumerate(fresh[:5]):
            path = os.path.join(rd, '%s_%d.json' % (self.prop, i))
            with open(path, 'w') as f: json.dump(dict(property=self.prop, label=label, message=msg, trace=trace), f, default=str)
            print('  %s: %s' % (label, msg[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1

def shorten(x, n=1500):
    try: s = json.dumps(x, default=str)
    except Exception: s = str(x)
    return x if len(s) <= n else s[:n] + '...'

def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                m, _, what = rest.partition(' :: ')
                out.append(dict(match=m.replace('match=', '', 1), what=what or m))
    return out
