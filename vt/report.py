"""Outcome of a check: evidence file, replay files, VIOLATION / KNOWN-FINDING lines, exit code."""
import os, json, time, sys, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.cov = {}
        self.assumptions = []
        self.errors = []

    def violation(self, title, case=None, detail=None, found=True):
        """found: a failing input was replayed on the real code"""
        self.violations.append({'title': title, 'case': case, 'detail': detail, 'found': found})

    def finish(self):
        kf = known_findings()
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        lines, recs, code = [], [], 0
        seen = set()
        self.violations.sort(key=lambda v: not v['found'])
        for v in self.violations:
            ident = v['title']
            if ident in seen:
                continue
            seen.add(ident)
            hit = [k for k in kf if k.get('property') == self.prop and k.get('kind') == 'finding' and k.get('match') and k['match'] in json.dumps(v)]
            if hit:
                lines.append(f'KNOWN-FINDING: property={self.prop} {hit[0]["what"]}')
                continue
            h = hashlib.sha256(ident.encode()).hexdigest()[:10]
            path = os.path.join(HERE, 'replay', f'{self.prop}-{h}.json')
            json.dump({'property': self.prop, 'obligation': v['title'], 'detail': v['detail'],
                       'cases': [v['case']] if v['case'] else [],
                       'how': 'cd /verif && /opt/venv/bin/python -W ignore -m vt.replay ' + path}, open(path, 'w'), indent=1, default=str)
            code = 1
            if len(recs) < 20:
                lines.append(f'VIOLATION property={self.prop} replay={path}' + ('' if v['found'] else ' no-failing-input-found'))
                lines.append('  ' + v['title'][:300])
            recs.append({'title': v['title'], 'replay': path, 'input_found': v['found']})
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': recs}
        if self.errors:
            ev['errors'] = self.errors[:5]
        json.dump(ev, open(os.path.join(HERE, 'evidence', f'{self.prop}.json'), 'w'), indent=1, default=str)
        for l in dict.fromkeys(lines):
            print(l)
        if code == 0 and self.errors:
            print('ERROR', self.errors[0])
            return 3
        print(f'{self.prop}: {"violated" if code else "held"}; obligations {self.cov.get("obligations", "-")}, discharged {self.cov.get("discharged", "-")}, '
              f'{ev["wall_s"]} s')
        return code


def known_findings():
    """entries of known_findings.txt: JSON lines are findings; 'fixed: ...' lines record repairs and suppress nothing"""
    try:
        return [json.loads(l) for l in open(os.path.join(HERE, 'known_findings.txt')) if l.startswith('{')]
    except FileNotFoundError:
        return []
