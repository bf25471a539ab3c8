"""Collects obligations and violations of one check, applies the known-findings file, writes evidence."""
import signal, json, os, sys, time, traceback
from . import facts, engine
from .facts import AnalysisError, Broken

VERIF = facts.VERIF


class Check:
    def __init__(self, prop, rule):
        self.prop, self.rule = prop, rule
        self.t0 = time.time()
        Check.current = self
        self.viol = []
        self.obl = 0
        self.undecided = []
        self.counts = {}
        self.samples = []
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))

    @property
    def thorough(self): return self.tier == 'thorough'

    def load(self, *groups):
        F = facts.load(groups)
        self.count('translation_units', len(F.tus))
        self.count('functions_parsed', len(F.funcs))
        self.F = F
        return F

    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n

    def ob(self, what, ok, where='', msg='', key=None):
        """one obligation: ok is True / False / None (undecided)"""
        self.obl += 1
        if len(self.samples) < 12: self.samples.append(what)
        if ok is None: self.undecided.append(what)
        elif not ok: self.violation(where, what + (': ' + msg if msg else ''), key or what)
        return ok

    def broken(self, e, what=''):
        k = getattr(e, 'key', None) or str(e)
        self.ob('what exists is asked about and every loop ends', False, getattr(e, 'where', ''), '%s%s' % (what + ': ' if what else '', e), key=k)

    def violation(self, where, msg, key):
        for w, m, k in self.viol:
            if k == key and w == where: return
        self.viol.append((where, msg, key))

    def each(self, jobs, fn, name=str):
        """fn(sub-check, job) for every job, in processes of their own; what they find is added up in the order of the jobs"""
        import pickle, selectors
        out, run, todo = {}, {}, list(enumerate(jobs))
        sel = selectors.DefaultSelector()
        while todo or run:
            while todo and len(run) < (os.cpu_count() or 2):
                i, j = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if not pid:
                    rc = 1
                    signal.alarm(int(max(5, float(os.environ.get('JV_LIMIT', 810)) - 110 - (time.time() - self.t0))))     # a job that does not come to an end is not decided
                    try:
                        os.close(r)
                        sub = Check(self.prop, self.rule)
                        sub.F = getattr(self, 'F', None)
                        t0 = time.time()
                        if os.environ.get('JV_DUMP'):
                            import faulthandler
                            faulthandler.dump_traceback_later(int(os.environ['JV_DUMP']), exit=True)
                        if engine.BOUNDS is not None: engine.BOUNDS = [0]
                        try:
                            fn(sub, j)
                            sub.see_bounds()
                        except Broken as e:
                            sub.broken(e, name(j))
                            sub.see_bounds()
                        except Exception as e:
                            tb = traceback.extract_tb(e.__traceback__)[-1]
                            if isinstance(e, KeyError) and type(e.args[0]) is int and '/checks/' in tb.filename:     # a definite ID that the world does not have
                                sub.broken(Broken('entity %d is named, which does not exist' % e.args[0]), name(j))
                            if os.environ.get('JV_DEBUG'): traceback.print_exc()
                            sub.lost = '%s: %s %s' % (name(j), type(e).__name__, str(e)[:200])
                        if os.environ.get('JV_TIME'): print('%6.1f s %s' % (time.time() - t0, name(j)))
                        d = pickle.dumps((sub.viol, sub.obl, sub.undecided, sub.counts, sub.samples, getattr(sub, 'lost', None)))
                        with os.fdopen(w, 'wb') as f: f.write(d)
                        rc = 0
                    finally:
                        sys.stdout.flush(); sys.stderr.flush()
                        os._exit(rc)
                os.close(w)
                run[r] = (i, j, pid, [])
                sel.register(r, selectors.EVENT_READ)
            for k, _ in sel.select():
                r = k.fileobj
                b = os.read(r, 1 << 20)
                if b: run[r][3].append(b); continue
                sel.unregister(r); os.close(r)
                i, j, pid, bs = run.pop(r)
                os.waitpid(pid, 0)
                out[i] = pickle.loads(b''.join(bs)) if bs else ([], 0, [], {}, [], '%s: ended' % name(j))
        lost = []
        for i in sorted(out):
            v, n, u, c, s, l = out[i]
            for w, m, k in v: self.violation(w, m, k)
            self.obl += n; self.undecided += u
            for k, x in c.items(): self.count(k, x)
            self.samples += s[:max(0, 12 - len(self.samples))]
            if l:
                lost.append(l); self.undecided.append(l)
                print('NOTE: not decided: ' + l)
        if lost and len(lost) == len(out): raise AnalysisError(lost[0])

    def bounds(self):
        """from here on, every access to a list of known length is an obligation"""
        engine.BOUNDS = [0]

    def see_bounds(self):
        if engine.BOUNDS is None: return
        b, engine.BOUNDS = engine.BOUNDS, [0]
        if b[0]: self.count('list_accesses', b[0])
        for f, l, qn, what, i, n, _ in dict.fromkeys(b[1:]):
            if n is None:
                self.ob('%s uses only values that were set' % qn, False, '%s:%d' % (f, l), 'it %s a value that was never set' % what, key='%s uses only values that were set' % qn)
                continue
            if i == 'range':
                self.ob('%s stays within its lists' % qn, False, '%s:%d' % (f, l), 'it ' + what, key='%s stays within its lists' % qn)
                continue
            self.ob('%s stays within its lists' % qn, False, '%s:%d' % (f, l), 'it %s element %s of a list of %s' % (what, i, n), key='%s stays within its lists' % qn)
        if len(b) == 1 and b[0]: self.ob('no access outside a list', True)

    def need(self, n, least, what):
        self.see_bounds()
        if n < least and not self.viol: raise AnalysisError('%s: %d instances found, at least %d expected' % (what, n, least))

    def finish(self):
        self.see_bounds()
        known = load_known()
        unk, kn = [], []
        for v in self.viol:
            e = next((k for k in known if k['property'] == self.prop and k['key'] == v[2]), None)
            (kn if e else unk).append((v, e))
        ev = {
            'property': self.prop, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed, 'level': 'other',
            'coverage': dict({'explanation': self.rule, 'obligations_checked': self.obl,
                              'obligations_undecided': len(self.undecided), 'undecided': self.undecided[:20],
                              'samples': self.samples}, **self.counts),
            'violations': len(unk), 'known_findings': len(kn),
            'wall_s': round(time.time() - self.t0, 2),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        rep = os.path.join(VERIF, 'evidence', self.prop + '.report.txt')
        with open(rep, 'w') as f:
            f.write('%s: %d obligations, %d violations, %d known\n' % (self.prop, self.obl, len(unk), len(kn)))
            for (w, m, k), e in unk + kn: f.write('%s %s: %s   [%s]\n' % ('KNOWN' if e else 'VIOLATION', w, m, k))
        print('%s: %d obligations checked, %d undecided, %s, %.1fs' % (
            self.prop, self.obl, len(self.undecided), ', '.join('%s=%s' % x for x in sorted(self.counts.items())), time.time() - self.t0))
        for (w, m, k), e in kn: print('KNOWN-FINDING: property=%s %s %s' % (self.prop, w, e.get('what', m)))
        for (w, m, k), e in unk: print('  %s: %s   [%s]' % (w, m, k))
        if unk:
            print('VIOLATION property=%s replay=%s' % (self.prop, rep))
            return 1
        if self.obl == 0: raise AnalysisError('no obligation was generated')
        return 0


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'): out.append(json.loads(l))
    return out
