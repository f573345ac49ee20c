"""Report of one check: findings, measured coverage, known findings, evidence file."""
import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('VERIF_OUT') or ROOT
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class Report:
    """What one analysis pass of a property found and covered."""

    def __init__(self):
        self.findings = []          # dicts: key rule construct where text witness
        self.obligations = 0
        self.decided = 0
        self.undecided = []         # readable reasons
        self.counts = {}            # further measured counts
        self.samples = []
        self.constructs = set()
        self.rules = {}             # rule id -> text

    def ob(self, construct, ok=True, why=None):
        self.obligations += 1
        self.constructs.add(construct)
        if ok:
            self.decided += 1
        else:
            self.undecided.append('{}: {}'.format(construct, why))

    def find(self, rule, construct, where, text, witness='', key=None):
        key = key or '{}|{}|{}'.format(rule, construct, text)
        if not any(f['key'] == key for f in self.findings):
            self.findings.append(dict(key=key, rule=rule, construct=construct, where=where, text=text,
                                      witness=witness))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def merge(self, o):
        for f in o.findings:
            if not any(g['key'] == f['key'] for g in self.findings):
                self.findings.append(f)
        self.obligations += o.obligations
        self.decided += o.decided
        self.undecided += o.undecided
        for k, n in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + n
        self.samples += o.samples
        self.constructs |= o.constructs
        self.rules.update(o.rules)
        return self


def known_findings():
    """{property: [key, ...]} of the open findings in known_findings.txt (fixed ones suppress
    nothing)."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('open: property='):
                pid, _, rest = line[len('open: property='):].partition(' ')
                key, _, what = rest.partition(' :: ')
                out.setdefault(pid, {})[key.strip()] = what.strip()
    return out


def finish(pid, tier, rep, t0, explanation, assumptions):
    known = known_findings().get(pid, {})
    shown, bad = [], []
    for f in sorted(rep.findings, key=lambda f: (f['where'], f['key'])):
        (shown if f['key'] in known else bad).append(f)
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    samples = [s for s in rep.samples if s][:8]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=dict(explanation=explanation, obligations=rep.obligations, discharged=rep.decided,
                            undecided=len(rep.undecided), undecided_reasons=sorted(set(rep.undecided))[:40],
                            constructs_analysed=len(rep.constructs), constructs=sorted(rep.constructs)[:400],
                            rules=rep.rules, samples=samples, **rep.counts),
              wall_s=round(time.time() - t0, 3), assumptions=assumptions, violations=len(bad))
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
    for f in shown:
        print('KNOWN-FINDING: property={} {} [{}] {}'.format(pid, f['construct'], f['where'], f['text']))
    os.makedirs(os.path.join(OUT, 'out'), exist_ok=True)
    for i, f in enumerate(bad[:20]):
        path = os.path.join(OUT, 'out', '{}-{}.json'.format(pid, i + 1))
        with open(path, 'w') as fh:
            json.dump(dict(property=pid, rerun='python3 check.py {}'.format(pid), **f), fh, indent=1,
                      default=str)
        print('{}: {} in {}: {}{}'.format(f['where'], f['rule'], f['construct'], f['text'],
                                          '  [witness: {}]'.format(f['witness']) if f['witness'] else ''))
        print('VIOLATION property={} replay={}'.format(pid, path))
    print('{}: {} obligations on {} constructs, {} decided, {} undecided, {} violations, {} known, '
          '{:.1f} s'.format(pid, rep.obligations, len(rep.constructs), rep.decided, len(rep.undecided),
                            len(bad), len(shown), time.time() - t0))
    if rep.obligations == 0 or rep.decided == 0:
        print('nothing could be decided: the analysis is broken or the code has moved away')
        return 1 if bad else 2
    return 1 if bad else 0
