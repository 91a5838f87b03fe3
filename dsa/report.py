"""Check runner: runs one rule module, writes evidence, prints VIOLATION / KNOWN-FINDING lines."""
import importlib
import json
import os
import sys
import time
import traceback

from .repo import Repo, AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.violations = []
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.counts = {}
        self.samples = []
        self.rules = []

    def rule(self, text):
        self.rules.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, what=None):
        self.obligations += 1
        self.discharged += 1
        if what and len(self.samples) < 40:
            self.samples.append(what)

    def undec(self, what):
        self.obligations += 1
        self.undecided.append(what)

    def violation(self, key, message, loc=None):
        """key: stable 'rule|construct' identity (no line numbers)."""
        self.obligations += 1
        for v in self.violations:
            if v['key'] == key:
                return
        self.violations.append({'key': key, 'message': message, 'loc': str(loc) if loc else None})

    def check(self, cond, key, message, loc=None, sample=None):
        if cond:
            self.ok(sample or key)
        else:
            self.violation(key, message, loc)
        return cond

    def floor(self, what, n):
        """At least n instances of `what` must have been analysed."""
        if self.counts.get(what, 0) < n:
            raise AnalysisBroken(f"only {self.counts.get(what, 0)} {what} found (expected at least {n})")


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {'findings': [], 'fixed': []}


def run(pid, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in argv:
        tier = 'thorough'
    t0 = time.time()
    sys.setrecursionlimit(20000)
    rep = Report(pid, tier)
    repo = mod = broken = None
    try:
        mod = importlib.import_module(f"dsa.rules.{pid.lower()}")
        repo = Repo()
        mod.run(repo, rep)
    except AnalysisBroken as e:
        broken = 2, str(e)
    except Exception:
        traceback.print_exc()
        broken = 3, 'internal error'
    if not broken and 2 * len(rep.undecided) > rep.obligations:
        broken = 2, f"{len(rep.undecided)} of {rep.obligations} obligations undecided, e.g. {rep.undecided[0]}"
    known = {k['key']: k for k in load_known().get('findings', []) if k['property'] == pid}
    new = [v for v in rep.violations if v['key'] not in known]
    old = [v for v in rep.violations if v['key'] in known]
    if broken and not new:
        print(f"ANALYSIS-BROKEN property={pid} {broken[1]}")
        return broken[0]
    for v in old:
        print(f"KNOWN-FINDING: property={pid} {known[v['key']].get('what', v['message'])}")
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rc = 0
    if new:
        replay = os.path.join('evidence', f"{pid}.violations.json")
        with open(os.path.join(VERIF, replay), 'w') as f:
            json.dump(new, f, indent=1, default=str)
        for v in new:
            print(f"  {v['loc'] or ''}: [{v['key']}] {v['message']}")
        print(f"VIOLATION property={pid} replay={replay}")
        rc = 1
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': getattr(mod, 'EXPLANATION', (mod.__doc__ or '').strip()),
            'technique': 'static analysis of the syntax tree / abstract interpretation; nothing from /repo is executed',
            'rules': rep.rules,
            'obligations': rep.obligations,
            'discharged': rep.discharged,
            'undecided': rep.undecided[:50],
            'undecided_count': len(rep.undecided),
            'analysed': rep.counts,
            'incomplete': broken[1] if broken else None,
            'modules_parsed': len(repo.modules),
            'samples': rep.samples[:40],
            'source_digest': repo.digest(),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    with open(os.path.join(evdir, f"{pid}.json"), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {rep.discharged}/{rep.obligations} obligations discharged, {len(rep.undecided)} undecided, "
          f"{len(old)} known, {len(new)} new; analysed {rep.counts} in {ev['wall_s']} s")
    return rc
