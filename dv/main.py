"""Run the check of one property: prove, replay, report."""
import importlib
import json
import os
import pickle
import sys
import time
import traceback


def main(argv, here):
    if argv and argv[0] == '--setup':
        import z3
        print('z3', z3.get_version_string())
        return 0
    if argv and argv[0] == '--replay':
        return replay(argv[1], here)
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(here, 'replay'), exist_ok=True)
    from props import registry
    out = os.path.join(here, 'replay', prop + '.json')
    if os.path.exists(out):
        os.unlink(out)
    run = Run(prop, tier, seed, here)
    try:
        registry.load(prop)(run)
    except SystemExit:
        raise
    except BaseException as e:
        # the code under test could not even be taken in: nothing was proved
        run.broken('%s: %s' % (type(e).__name__, str(e)[:500]), traceback.format_exc())
    return run.finish(t0)


class Run(object):
    def __init__(self, prop, tier, seed, here):
        self.prop, self.tier, self.seed, self.here = prop, tier, seed, here
        self.quick = tier != 'thorough'
        self.report = None
        self.witness = None
        self.errors = []
        self.proving = True
        self.replayers = []
        self.searchers = []     # callables (seconds, seed) -> (failure or None, instances)
        self.bounded = []       # bounded stand-ins: dicts
        self.bounds_failed = []
        self.cross = 0
        self.verbose = os.environ.get('DV_VERBOSE') == '1'
        self.deadline = time.time() + float(os.environ.get('DV_BUDGET', '480' if self.quick else '2400'))
        self.extra = {}

    # -------------------------------------------------------------- proof
    def pool(self):
        from . import verify
        if self.report is None:
            self._pool = verify.Pool()
            self._pool.deadline = self.deadline
            self._pool.verbose = self.verbose
            self.report = self._pool.report
        return self._pool

    def broken(self, why, tb=''):
        self.errors.append(why)
        if self.verbose or os.environ.get('DV_TB'):
            sys.stderr.write(tb)

    def prove_pml(self, theorems, decoder=False, **kw):
        if os.environ.get('DV_ONLY'):
            theorems = [t for t in theorems if os.environ['DV_ONLY'] in t.name]
            if not theorems:
                return
        from . import session, contracts
        contracts.install(self)
        if decoder:
            contracts.install_decoder(self)
        if not self.proving:
            self.replayers.append((theorems, session.replay_pml))
            return
        s = session.Session(self.pool(), theorems, self.verbose, **kw)
        s.run()
        self.pool().sync()
        self.searchers.append(lambda sec, seed: session.search(theorems, sec, seed))
        self.expect = getattr(self, 'expect', []) + ['%s (%d-bit)' % (t.name, b) for t in theorems if t.expect and not t.search_only for b in t.bits]

    def prove(self, theorems, contract=True, decoder=False):
        """theorems about functions called directly"""
        if os.environ.get('DV_ONLY'):
            theorems = [t for t in theorems if os.environ['DV_ONLY'] in t.name]
            if not theorems:
                return
        from . import generic, contracts
        if contract:
            contracts.install(self)
        if decoder:
            contracts.install_decoder(self)
        if not self.proving:
            self.replayers.append((theorems, generic.replay))
            return
        generic.prove(self.pool(), theorems, self.verbose)
        self.pool().sync()
        self.searchers.append(lambda sec, seed: generic.search(theorems, sec, seed))
        self.expect = getattr(self, 'expect', []) + [t.name for t in theorems if t.expect]

    def search_only(self, theorems):
        from . import generic
        if self.proving:
            self.searchers.append(lambda sec, seed: generic.search(theorems, sec, seed))

    def need_paths(self, name, n):
        """a theorem about exceptions must have been reached"""
        if self.proving and self.report.theorem(name)['paths'] < n and not self.report.failures and not self.report.unsupported:
            self.broken('%s: fewer than %d paths were covered (vacuous)' % (name, n))

    # -------------------------------------------------------------- outcome
    def finish(self, t0):
        from . import verify
        rep = self.report or verify.Report()
        problems = []
        for f in rep.failures:
            d = f if isinstance(f, dict) else f.as_dict()
            problems.append(('obligation', '%s: %s' % (d['theorem'], d['obligation']), d))
        for u in rep.unsupported:
            problems.append(('unproved', '%s: %s' % (u['theorem'], u['why']), u))
        for e in self.errors:
            problems.append(('unproved', e, {}))
        if not problems:
            for n in getattr(self, 'expect', []):
                th = rep.theorems.get(n)
                if not th or not th['covered']:
                    problems.append(('unproved', '%s: no path of the code was covered (vacuous)' % n, {}))
        for b in self.bounds_failed:
            problems.append(('bounded', b.get('difference', ''), b))
            self.witness = self.witness or b
        # concrete cross-check of proof and engine; with a failed obligation, the search for a failing input
        from . import session
        problems.sort(key=lambda p: 'stopped: another' in p[1])
        session.PREFER.clear()
        session.PREFER.update(p[1].split(':')[0] for p in problems if 'stopped: another' not in p[1])
        for k, s in enumerate(self.searchers):
            if self.witness is not None:
                break
            secs = (45 if self.quick else 240) if problems else (3 if self.quick else 30)
            try:
                w, n = s(secs / float(len(self.searchers)), self.seed)
            except Exception as e:
                w, n = None, 0
                self.errors.append('search: %r' % e)
            self.cross += n
            if w is not None:
                self.witness = w
                if not problems:
                    problems.append(('concrete', 'a concrete input contradicts the specification: %s' % w['difference'], w))
        wall = time.time() - t0
        self.evidence(rep, problems, wall)
        return self.say(problems, rep, wall)

    def evidence(self, rep, problems, wall):
        import z3
        from . import assume
        ob, dis = rep.obligations, rep.discharged
        ev = {
            'property': self.prop, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed,
            'level': self.extra.get('level', 'proof'), 'wall_s': round(wall, 2),
            'coverage': {
                'obligations': ob, 'discharged': dis,
                'discharged_by': rep.by,
                'checker_cmd': 'python3-vt /verif/check.py %s %s' % (self.prop, self.tier),
                'back_end': 'z3 %s (QF_UFLIA with instantiated quantified facts)' % z3.get_version_string(),
                'solver_s': round(rep.stats.get('solver_s', 0), 2),
                'solver_queries': rep.stats.get('queries', 0),
                'theorems': {k: v for k, v in sorted(rep.theorems.items())},
                'paths': sum(v['paths'] for v in rep.theorems.values()),
                'functions_under_contract': sorted(k for k in rep.functions if not k.startswith('specs.')
                                                   and not k.startswith('contract:')),
                'contracts_applied': {k[9:]: v for k, v in rep.functions.items() if k.startswith('contract:')},
                'bounded_stand_ins': self.bounded,
                'concrete_cross_checks': self.cross,
                'unsupported': [u for u in rep.unsupported][:10],
                'trusted_base': [
                    'the symbolic interpreter of Python in /verif/dv (cross-checked against CPython on random logs)',
                    'z3', 'models of builtins, struct, io.BytesIO, OrderedDict, enum, ipaddress, datetime in /verif/dv/models.py',
                ] + assume.assumptions(self.prop, [k[9:] for k in rep.functions if k.startswith('contract:')]),
            },
            'problems': [p[1][:300] for p in problems][:20],
        }
        if ev['level'] == 'exploration':
            ev['coverage'].update(evaluations=sum(b['cases'] for b in self.bounded) + self.cross,
                                  distinct_nontrivial=sum(b['compared'] for b in self.bounded),
                                  rule='; '.join('%s: %s' % (b['name'], b['bound']) for b in self.bounded)
                                  + '; non-trivial: inside what the contract speaks about',
                                  samples=[x for b in self.bounded for x in b['samples']][:6])
        ev.update({k: v for k, v in self.extra.items() if k not in ('level',)})
        path = os.path.join(self.here, 'evidence', self.prop + '.json')
        with open(path, 'w') as fh:
            json.dump(ev, fh, indent=1, sort_keys=True, default=repr)

    def say(self, problems, rep, wall):
        known = known_findings(self.here, self.prop)
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if not problems:
            print('%s: %d obligations, all discharged (%.1f s); %d bounded cases, %d concrete cross-checks' % (
                self.prop, rep.obligations, wall, sum(b['compared'] for b in self.bounded), self.cross))
            return 0
        out = os.path.join(self.here, 'replay', self.prop + '.json')
        for kind, what, d in problems[:8]:
            print('%s: %s: %s' % (self.prop, {'obligation': 'FAILED OBLIGATION', 'unproved': 'NOT PROVED',
                                             'concrete': 'CONCRETE', 'bounded': 'BOUNDED CHECK'}[kind], what[:400]))
        doc = {'property': self.prop, 'problems': [{'kind': k, 'what': w, 'detail': d} for k, w, d in problems[:40]],
               'witness': self.witness}
        with open(out, 'w') as fh:
            json.dump(doc, fh, indent=1, default=repr)
        if self.witness is not None:
            print('failing input: %s' % str(self.witness.get('difference'))[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, out))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.prop, out))
        return 1


def known_findings(here, prop):
    """the findings listed for a property in known-findings.txt ('fixed:' lines suppress nothing)"""
    out = []
    path = os.path.join(here, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('property=%s ' % prop):
                out.append(line.split(' ', 1)[1].strip())
    return out


def replay(path, here):
    """run a recorded failing input against the real code again: exit 1 when it still fails"""
    doc = json.load(open(path))
    w = doc.get('witness')
    print('property %s' % doc['property'])
    for p in doc['problems'][:10]:
        print(' ', p['kind'], p['what'][:300])
    if not w:
        print('no failing input was found; the failed obligations are listed above')
        return 1
    from props import registry
    run = Run(doc['property'], 'quick', 1, here)
    run.proving = False
    registry.load(doc['property'])(run)
    for ths, f in run.replayers:
        if any(t.name == w.get('theorem') for t in ths):
            d = f(ths, w)
            print('the recorded input: %s' % (d or 'specification and code agree now'))
            return 1 if d else 0
    print('the recorded input belongs to no theorem of this property any more')
    return 1
