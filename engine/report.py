"""Verdicts, replay files and evidence."""
import json, os, sys, time, collections, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()


class Report:
    def __init__(s, pid, tier, seed):
        s.pid, s.tier, s.seed = pid, tier, seed
        s.count = collections.Counter()
        s.backend = collections.Counter()
        s.viol = []       # (obligation, detail, replay dict, confirmed)
        s.known = []      # (id, text)
        s.undecided = []
        s.functions = set()
        s.contracts = set()
        s.assumptions = []
        s.trusted = []
        s.extra = {}
        s.evals = 0
        s.samples = []
        s.level, s.explanation = 'proof', None

    def add(s, status, by=''):
        s.count[status] += 1
        if status == 'proved':
            s.backend[by] += 1

    def finish(s):
        kf = known_findings()
        out = []
        for kid, text in s.known:
            if kid in kf and kf[kid]['property'] == s.pid:
                out.append('KNOWN-FINDING: property=%s %s' % (s.pid, kf[kid]['what']))
            else:
                s.viol.append((kid, text, {}, False))
        for l in sorted(set(out)):
            print(l)
        paths = []
        if s.viol:
            d = os.path.join(ROOT, 'replays')
            os.makedirs(d, exist_ok=True)
            s.viol.sort(key=lambda v: not v[3])
            seen = set()
            for name, detail, rep, conf in s.viol:
                if name in seen or len(seen) >= 5:
                    continue
                seen.add(name)
                h = hashlib.sha1(('%s|%s|%s' % (s.pid, name, detail)).encode()).hexdigest()[:10]
                p = os.path.join(d, '%s-%s.json' % (s.pid, h))
                with open(p, 'w') as f:
                    json.dump({'property': s.pid, 'obligation': name, 'verifier_output': detail,
                               'failing_input_confirmed_on_the_real_code': conf, **rep}, f, indent=1, default=str)
                paths.append(p)
                print('  failed obligation: %s -- %s' % (name, str(detail)[:300]))
                print('VIOLATION property=%s replay=%s%s' % (s.pid, p, '' if conf else ' no-failing-input-found'))
        tot = sum(s.count[k] for k in ('proved', 'refuted', 'undecided', 'known'))
        nd = s.count['proved']
        if s.count['undecided'] or s.undecided:
            print('undecided: %d obligations (not counted as proved): %s' % (max(s.count['undecided'], len(s.undecided)), '; '.join(sorted(set(map(str, s.undecided)))[:5])[:600]))
        cov = {'obligations': tot, 'discharged': nd,
               'checker_cmd': 'python3-vt /verif/check.py %s' % s.pid,
               'trusted_base': s.trusted, 'by_backend': dict(s.backend), 'undecided': s.count['undecided'],
               'undecided_list': sorted(set(map(str, s.undecided)))[:40],
               'functions_under_contract': sorted(s.functions), 'callees_by_contract': sorted(s.contracts),
               'known_findings': sorted(set(k for k, _ in s.known)),
               'evaluations': s.evals, **s.extra}
        if s.samples:
            cov['samples'] = s.samples
        if s.explanation:
            cov['explanation'] = s.explanation
        ev = {'property': s.pid, 'tier': s.tier, 'seed': s.seed, 'level': s.level, 'coverage': cov,
              'assumptions': s.assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': len(s.viol)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', s.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d undecided, %d refuted, %d known; %.1fs' % (
            s.pid, tot, nd, s.count['undecided'], s.count['refuted'], s.count['known'], time.time() - T0))
        return 1 if s.viol else 0


def known_findings():
    p = os.path.join(ROOT, 'known_findings.jsonl')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('status') == 'open':
                    out[d['id']] = d
    return out
