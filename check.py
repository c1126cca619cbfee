#!/usr/bin/env python3
"""Decide one property of pearu/gcs from its source.   check.py PROPERTY [REPO]

exit 0: the property holds on everything analysed (constructs outside the analysis are listed as
UNDECIDED and never alarm); exit 1: VIOLATION; exit 2: the analysis itself is broken."""
import ast
import json
import os
import sys
import threading
import time
import traceback

T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa import front, oblig, plan, rules                # noqa: E402
from sa.front import PROG                               # noqa: E402

ANCHORS = ['gcs.storage:Storage', 'gcs.storage:Buffer', 'gcs.storage:Strided', 'gcs.storage:COO',
           'gcs.storage:FlatCOO', 'gcs.storage:CSR', 'gcs.storage:DM']
MODULES = ['gcs.storage', 'gcs.slice_tools', 'gcs_basics', 'gcs._version']


def known_findings():
    """key -> text of the listed findings (lines 'finding: property=ID key=... | what')."""
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    for line in open(path) if os.path.exists(path) else ():
        line = line.strip()
        if not line.startswith('finding:'):
            continue
        head, _, what = line[len('finding:'):].partition('|')
        pid = head.split('property=')[1].split()[0]
        key = head.split('key=')[1].strip()
        out[(pid, key)] = what.strip()
    return out


class Analysis:
    def __init__(self, repo, deadline, splits):
        self.repo, self.deadline, self.splits = repo, deadline, splits
        front.load_repo(repo)
        self.specs = oblig.load_specs()
        self.done = {}

    def obligation(self, name):
        if name not in self.done:
            sp = self.specs.get(name)
            if sp is None:
                return None
            if time.time() - T0 > 600:
                return oblig.Outcome(name, 'UNKNOWN', 'the time of this run is used up')
            try:
                o = oblig.run_spec(sp, self.deadline, self.splits)
            except (Exception, MemoryError) as e:
                o = oblig.Outcome(name, 'UNKNOWN', 'analysis: %s: %s' % (type(e).__name__, e))
            self.done[name] = o
        return self.done[name]

    def equal(self, qual):
        o = self.obligation(qual)
        return o is not None and o.verdict == 'EQUAL'

    def override_run(self, sp, target):
        try:
            return oblig.run_spec(sp, self.deadline, self.splits, target)
        except Exception as e:
            return oblig.Outcome(target, 'UNKNOWN', str(e))

    def rule(self, name):
        if name == 'override':
            return rules.override(self.specs, self.override_run)
        if name == 'effects':
            return rules.effects({s.target for s in self.specs.values()}
                                 | set(oblig.POLICY.specs) | set(plan.ENTRIES))
        if name in ('assignment', 'sizes'):
            return getattr(rules, name)(self.equal)
        if name == 'exact':
            return rules.exact([self.specs[o].target for o in self.obligations
                                if o in self.specs])
        if name == 'names':
            if self.everything:
                return rules.names([f.qual for f in rules.module_funcs(
                    rules.STORAGE, rules.SLICES)])
            return rules.names([self.specs[o].target for o in self.obligations
                                if o in self.specs])
        return getattr(rules, name)()


def main(argv):
    t0 = time.time()
    pid = argv[1]
    repo = argv[2] if len(argv) > 2 else os.environ.get('GCS_REPO', '/repo')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if pid not in plan.PLAN:
        print('unknown property', pid)
        return 2
    thorough = tier == 'thorough'
    try:
        an = Analysis(repo, 240.0 if thorough else 30.0, 60000 if thorough else 6000)
    except SyntaxError as e:
        print('ANALYSIS-BROKEN: %s' % e)
        return 2
    p = plan.PLAN[pid]
    an.obligations = p.get('obligations', ())
    an.everything = 'interface' in p.get('rules', ())
    for m in MODULES:
        if m not in PROG.modules:
            print('ANALYSIS-BROKEN: module %s not found' % m)
            return 2
    for a in ANCHORS:
        if a.partition(':')[2] not in PROG.classes:
            print('ANALYSIS-BROKEN: class %s not found' % a)
            return 2

    violations, undecided, units = [], [], []
    proved = total = 0
    leaves = splits = 0
    for name in dict.fromkeys(p.get('obligations', ())):
        o = an.obligation(name)
        if o is None:
            continue
        total += 1
        loc = rules.where(o.func) if o.func is not None else ''
        leaves += o.leaves
        splits += o.splits
        units.append('%s: %s' % (name, {'EQUAL': 'matches its specification',
                                        'DIFF': 'DIFFERS', 'MISSING': 'not found'}.get(
                                            o.verdict, 'undecided')))
        if o.verdict == 'EQUAL':
            proved += 1
        elif o.verdict == 'DIFF':
            d = o.detail
            violations.append(dict(
                rule='specification', construct=name, key='specification ' + name, where=loc,
                what=o.why, when=d.get('when', []), code=d.get('code'),
                specified=d.get('specified')))
        else:
            undecided.append(dict(rule='specification', construct=name, where=loc,
                                  what=o.why or o.verdict))
    for rn in tuple(p.get('rules', ())) + (('names',) if total else ()):
        try:
            r = an.rule(rn)
        except Exception as e:
            undecided.append(dict(rule=rn, construct=rn, where='',
                                  what='analysis: %s: %s' % (type(e).__name__, e)))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            continue
        total += len(r.units)
        proved += max(0, len(r.units) - len(r.violations) - len(r.undecided))
        units += ['%s: %s' % (rn, u) for u in r.units]
        violations += r.violations
        undecided += r.undecided
    if total == 0:
        print('ANALYSIS-BROKEN: nothing to analyse for %s' % pid)
        return 2

    known = known_findings()
    fresh = []
    seen_known = []
    for v in violations:
        w = known.get((pid, v['key']))
        if w is not None:
            seen_known.append(v['key'])
            print('KNOWN-FINDING: property=%s %s' % (pid, w))
        else:
            fresh.append(v)
    for u in undecided:
        print('UNDECIDED %s [%s] %s: %s' % (u['construct'], u['rule'], u['where'],
                                            str(u['what'])[:300]))
    print('%s: %d obligations, %d discharged, %d undecided, %d known findings'
          % (pid, total, proved, len(undecided), len(seen_known)))

    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    report = os.path.join(ev, pid + '.report.json')
    with open(report, 'w') as fh:
        json.dump(dict(property=pid, repo=repo, violations=fresh, undecided=undecided,
                       units=units), fh, indent=1, default=str)
    wall = time.time() - t0
    evidence = dict(
        property=pid, tier='thorough' if thorough else 'quick',
        seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', wall_s=round(wall, 3),
        violations=len(fresh),
        coverage=dict(
            explanation=plan.EXPLANATION, obligations=total, discharged=proved,
            undecided=len(undecided), known_findings=len(seen_known),
            gate_regions_compared=leaves, case_splits=splits,
            functions_parsed=len(PROG.funcs), classes_parsed=len(PROG.classes),
            rules=['specification'] + list(p.get('rules', ())),
            samples=units[:12]),
        assumptions=plan.ASSUMPTIONS)
    if thorough:
        from sa import sensitivity
        evidence['coverage']['sensitivity'] = sensitivity.measure(
            an, repo, p.get('obligations', ()), budget=float(os.environ.get(
                'VERIF_SENS_BUDGET', '420')))
        evidence['wall_s'] = round(time.time() - t0, 3)
    with open(os.path.join(ev, pid + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, default=str)

    for v in fresh:
        print('%s [%s] %s' % (v['construct'], v['rule'], v['where']))
        print('  %s' % v['what'])
        for w in v.get('when', ())[:8]:
            print('  when %s' % str(w)[:200])
        if v.get('code'):
            print('  code      %s' % str(v['code'])[:300])
            print('  specified %s' % str(v['specified'])[:300])
    if fresh:
        print('VIOLATION property=%s replay=%s' % (pid, report))
        return 1
    return 0


if __name__ == '__main__':
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    sys.setrecursionlimit(25000)
    threading.stack_size(512 << 20)
    code = []

    def run():
        try:
            code.append(main(sys.argv))
        except Exception:
            traceback.print_exc()
            code.append(2)
    th = threading.Thread(target=run, daemon=True)
    th.start()
    th.join(float(os.environ.get('VERIF_WATCHDOG', '850')))
    if th.is_alive():
        # no term of today's code comes near this; an unusual one must not hang the check
        print('UNDECIDED %s: the analysis did not finish in time' % sys.argv[1])
        sys.stdout.flush()
        ev = os.path.join(HERE, 'evidence', sys.argv[1] + '.json')
        os.makedirs(os.path.dirname(ev), exist_ok=True)
        with open(ev, 'w') as fh:
            json.dump(dict(property=sys.argv[1], tier=os.environ.get('VERIF_TIER', 'quick'),
                           seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                           wall_s=850.0, violations=0,
                           coverage=dict(explanation='not finished', obligations=0,
                                         discharged=0)), fh)
        os._exit(0)
    sys.stdout.flush()
    sys.exit(code[0] if code else 2)
