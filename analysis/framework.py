"""Reporting: obligations, violations, known findings, evidence."""
import json, os, sys, time
from loader import AnalysisError, VERIF

EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))
REPLAY = os.path.join(VERIF, 'build', 'replay') if 'VERIF_EVID' not in os.environ else EVID
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.viol = {}
        self.obl = {}            # rule -> list of instances
        self.funcs = set()
        self.units = set()
        self.notes = []
        self.assume = []
        self.counts = {}
        self.t0 = time.time()

    # -- recording
    def ok(self, rule, instance):
        """one obligation of a rule that was decided"""
        self.obl.setdefault(rule, [])
        if instance not in self.obl[rule]:
            self.obl[rule].append(instance)

    def bad(self, rule, key, where, msg, path=()):
        """definite violation; key identifies the construct (stable across line changes)"""
        k = '%s:%s' % (rule, key)
        if k not in self.viol:
            self.viol[k] = {'rule': rule, 'key': key, 'where': where, 'msg': msg, 'path': list(path)}

    def require(self, n, rule, what):
        """anchor check: a rule that matched nothing is broken, not satisfied"""
        if len(self.obl.get(rule, ())) < n and not any(v['rule'] == rule for v in self.viol.values()):
            raise AnalysisError('rule %s matched %d instance(s), expected at least %d: %s' % (rule, len(self.obl.get(rule, ())), n, what))

    def use(self, interp=None, prog=None):
        if interp is not None:
            self.funcs |= interp.stats['functions']
            for k in ('calls', 'branches', 'stmts', 'inlined_calls', 'merged'):
                self.counts[k] = self.counts.get(k, 0) + interp.stats[k]
            for o in interp.stats['opaque']:
                self.counts.setdefault('opaque_callees', set()).add(o)
        if prog is not None:
            self.units |= set(prog.units)

    # -- output
    def finish(self):
        known = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith('known: property=%s ' % self.pid):
                    rest = line.split('key=', 1)[1]
                    key, _, desc = rest.partition(' :: ')
                    known[key.strip()] = desc
        os.makedirs(REPLAY, exist_ok=True)
        nv = 0
        for old in os.listdir(REPLAY):
            if old.startswith(self.pid + '-'):
                os.unlink(os.path.join(REPLAY, old))
        lines = []
        for k, v in sorted(self.viol.items()):
            if k in known:
                lines.append('KNOWN-FINDING: property=%s %s (%s, %s)' % (self.pid, v['msg'], k, v['where']))
                v['known'] = True
                continue
            nv += 1
            path = os.path.join(REPLAY, '%s-%d.txt' % (self.pid, nv))
            with open(path, 'w') as f:
                f.write('property: %s\nrule: %s\nconstruct: %s\nat: %s\n%s\n' % (self.pid, v['rule'], v['key'], v['where'], v['msg']))
                for p in v['path']:
                    f.write('  %s\n' % p)
            lines.append('%s: %s [%s] %s' % (v['where'], v['msg'], v['rule'], v['key']))
            lines.append('VIOLATION property=%s replay=%s' % (self.pid, path))
        nob = sum(len(v) for v in self.obl.values())
        cnt = {k: (sorted(v) if isinstance(v, set) else v) for k, v in self.counts.items()}
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the type-checked source: abstract interpretation (dataflow over value numbers, locks and event history) '
                               'of every path of the listed functions, loops solved by havoc and induction. Nothing was executed.',
                'translation_units': sorted(self.units),
                'functions_analysed': sorted(self.funcs),
                'n_functions': len(self.funcs),
                'obligations': nob,
                'discharged': nob - nv if nob >= nv else 0,
                'rules': {r: {'instances': len(v), 'sites': [str(x)[:300] for x in v[:60]]} for r, v in sorted(self.obl.items())},
                'analysis': cnt,
                'notes': self.notes,
            },
            'wall_s': round(time.time() - self.t0, 2),
            'violations': nv,
            'assumptions': self.assume,
        }
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, '.%s.%d' % (self.pid, os.getpid()))
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.rename(tmp, os.path.join(EVID, self.pid + '.json'))
        for l in lines:
            print(l)
        print('%s %s: %d rule(s), %d obligation(s), %d function(s), %d violation(s), %.1fs' %
              (self.pid, 'VIOLATED' if nv else 'ok', len(self.obl), nob, len(self.funcs), nv, time.time() - self.t0))
        return 1 if nv else 0
