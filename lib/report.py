"""Obligations, verdicts, evidence and exit codes shared by all checks.

Verdicts are three-valued.  PROVED: the rule establishes the obligation for
every input.  REFUTED: the rule found a construct violating it (the only thing
that raises an alarm).  UNKNOWN: the analysis does not understand the code well
enough; reported in the evidence as undecided, never as an alarm.
"""
import json
import os
import signal
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROVED, REFUTED, UNKNOWN = 'proved', 'refuted', 'unknown'


class Timeout(BaseException):
    pass


class Budget:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*_):
            raise Timeout()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s, 2.0)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class Check:
    def __init__(self, pid, rule, assumptions=(), floor=1, budget=400):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.floor = floor
        self.obs = []
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.counts = {}
        self.debug = bool(os.environ.get('VERIF_DEBUG'))

    def left(self, budget):
        if any(o['verdict'] == REFUTED for o in self.obs):
            budget = min(budget, 20)
        if self.tier == 'thorough':
            return max(0.1, min(budget * 2, self.deadline + 300 - time.time()))
        return max(0.1, min(budget, self.deadline - time.time()))

    def add(self, oid, desc, verdict, detail=None, where=None):
        self.obs.append({'id': oid, 'rule': desc, 'verdict': verdict, 'where': where, 'detail': detail})
        return verdict

    def ob(self, oid, desc, fn, where=None, budget=90):
        """Run one deciding step; anything it cannot handle leaves the obligation undecided."""
        left = self.left(budget)
        try:
            with Budget(left):
                r = fn()
        except Timeout:
            r = (UNKNOWN, 'time budget exhausted')
        except RecursionError:
            r = (UNKNOWN, 'recursion limit')
        except Exception as e:   # noqa: the analysis met code it does not model
            if type(e).__name__ == 'AnchorMissing':
                raise
            if self.debug:
                traceback.print_exc()
            r = (UNKNOWN, f'{type(e).__name__}: {e}'[:300])
        if isinstance(r, str):
            r = (r, None)
        if r is None:
            r = (PROVED, None)
        if len(r) == 3:
            where = r[2]
        return self.add(oid, desc, r[0], r[1], where)

    def group(self, oid, desc, fn, budget=120):
        """fn itself adds obligations; a failure inside becomes one undecided obligation."""
        left = self.left(budget)
        try:
            with Budget(left):
                fn()
            return True
        except Timeout:
            self.add(oid, desc, UNKNOWN, 'time budget exhausted')
        except RecursionError:
            self.add(oid, desc, UNKNOWN, 'recursion limit')
        except Exception as e:
            if type(e).__name__ == 'AnchorMissing':
                raise
            if self.debug:
                traceback.print_exc()
            self.add(oid, desc, UNKNOWN, f'{type(e).__name__}: {e}'[:300])
        return False

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def finish(self):
        known = load_known(self.pid)
        bad, listed = [], []
        for o in self.obs:
            if o['verdict'] == REFUTED:
                key = o['id']
                (listed if key in known else bad).append(o)
        n = {v: sum(o['verdict'] == v for o in self.obs) for v in (PROVED, REFUTED, UNKNOWN)}
        expl = (f'Rule: {self.rule} Obligations examined on this run: {len(self.obs)}; '
                f'proved {n[PROVED]}, refuted {n[REFUTED]}, undecided {n[UNKNOWN]}.')
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': expl,
                'rule': self.rule,
                'obligations': len(self.obs),
                'discharged': n[PROVED],
                'undecided': [{'id': o['id'], 'why': str(o['detail'])[:300]} for o in self.obs
                              if o['verdict'] == UNKNOWN],
                'analysed': dict(self.counts),
                'samples': [{k: (str(v)[:400] if v is not None else None) for k, v in o.items()}
                            for o in self.obs[:400]],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(bad),
        }
        d = os.environ.get('VERIF_EVIDENCE_DIR', os.path.join(HERE, 'evidence'))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for o in listed:
            print(f'KNOWN-FINDING: property={self.pid} {o["id"]}: {known[o["id"]]}')
        print(f'{self.pid}: {len(self.obs)} obligations, proved {n[PROVED]}, refuted {n[REFUTED]}, '
              f'undecided {n[UNKNOWN]} ({ev["wall_s"]} s)')
        for o in self.obs:
            if o['verdict'] == UNKNOWN:
                print(f'  undecided {o["id"]}: {str(o["detail"])[:200]}')
        if bad:
            rp = os.path.join(d, f'{self.pid}.violation.txt')
            with open(rp, 'w') as f:
                for o in bad:
                    f.write(f'obligation {o["id"]}\n  rule: {o["rule"]}\n  where: {o["where"]}\n'
                            f'  finding: {o["detail"]}\n')
            for o in bad:
                print(f'  REFUTED {o["id"]} at {o["where"]}: {str(o["detail"])[:500]}')
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        if len(self.obs) < self.floor and not n[UNKNOWN]:
            print(f'{self.pid}: only {len(self.obs)} obligations found, expected at least {self.floor}: '
                  f'the analysis no longer sees the code it is about')
            return 2
        return 0


def load_known(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=' + pid + ' '):
                rest = line.split(' ', 2)[2]
                key, _, txt = rest.partition(' ')
                out[key] = txt
    return out


def main(pid, rule, fn, assumptions=(), floor=1, budget=400):
    sys.setrecursionlimit(20000)
    c = Check(pid, rule, assumptions, floor, budget)

    def watchdog():
        # work outside the budgeted steps: report what has been decided so far
        c.add('time', 'the analysis finishes', UNKNOWN, 'time budget exhausted')
        r = c.finish()
        sys.stdout.flush()
        os._exit(r)
    w = threading.Timer(budget + (400 if c.tier == 'thorough' else 100), watchdog)
    w.daemon = True
    w.start()
    try:
        fn(c)
    except Timeout:
        c.add('time', 'the analysis finishes', UNKNOWN, 'time budget exhausted')
    except Exception as e:
        if type(e).__name__ == 'AnchorMissing' or isinstance(e, SyntaxError):
            print(f'{pid}: analysis broken: {e}', file=sys.stderr)
            c.add('anchor', 'public entry point present', UNKNOWN, str(e))
            c.finish()
            sys.exit(2)
        raise
    w.cancel()
    sys.exit(c.finish())
