"""One unit of work = one contract harness: verify, replay refutations natively, bounded stand-in for what stays undecided."""
import collections
import symex, nra, par, report
from oblig import PROVED, REFUTED, UNDEC


def summarize(name, run, confirm, bounded, nbounded, force_bounded=False):
    """-> picklable result of one harness"""
    r = {'name': name, 'count': collections.Counter(), 'backend': collections.Counter(), 'known': [], 'viol': [], 'undecided': [],
         'paths': run.paths, 'called': run.called, 'contracts': set(run.contracts), 'z3': None, 'bounded': 0, 'notes': [], 'samples': []}
    bad, cutbad = collections.OrderedDict(), collections.OrderedDict()
    for o in run.obs:
        st = o.status
        if st == REFUTED and o.env is None and o.facts:
            # refuted on a path for which no admissible input was found: the path may be infeasible
            st = UNDEC
            o.detail = 'fails on a path without a known input: ' + o.detail
        if st == REFUTED and str(o.by).endswith(' near'):
            o.free = True
            cutbad.setdefault(o.name.split('[')[0].split('(')[0], []).append(o)
            continue
        if st == REFUTED and getattr(o, 'cuts', 0):
            # refuted from a state that stands for the reachable ones: a violation when the real code confirms it
            cutbad.setdefault(o.name.split('[')[0].split('(')[0], []).append(o)
            continue
        r['count'][st] += 1
        if st == PROVED:
            r['backend'][o.by] += 1
        elif st == REFUTED:
            bad.setdefault(o.name.split('[')[0].split('(')[0], []).append(o)
        elif st == 'known':
            r['known'].append((o.detail, name))
        else:
            r['undecided'].append('%s %s' % (o.name, o.detail))
    more = 1
    for nm, obs in cutbad.items():
        if nm in bad:
            bad[nm] += obs
            r['count'][REFUTED] += len(obs)
            continue
        conf = None
        for o in obs[:3]:
            try:
                c = confirm(o)
            except Exception as e:
                c = None
                r['notes'].append('native replay unavailable: %s' % str(e)[-300:])
            if c and c['failures']:
                conf = c
                break
        if conf or not all(o.free for o in obs):
            r['count'][REFUTED] += len(obs)
            o = next((o for o in obs if not o.free), o)
            r['viol'].append(('%s/%s' % (name, o.name), o.detail + ('; real code: %s' % (conf['failures'][0],) if conf else ''),
                              {'harness': name, **(conf or {'choices': o.choices})}, bool(conf)))
        else:
            more = 10
            r['count'][UNDEC] += len(obs)
            r['undecided'].append('%s fails from a state the invariant allows, without a failing input' % nm)
    for o in run.obs[::max(1, len(run.obs) // 3)][:3]:
        r['samples'].append('%s: %s = %s' % (name, o.name, o.status))
    for nm, obs in bad.items():
        conf = None
        tried = 0
        for o in obs:
            if tried >= 4:
                break
            if o.env is None:
                o.env = {}
            tried += 1
            try:
                c = confirm(o)
            except Exception as e:
                c = None
                r['notes'].append('native replay unavailable: %s' % str(e)[-300:])
            if c and c['failures']:
                conf = (o, c)
                break
        if conf:
            o, c = conf
            r['viol'].append(('%s/%s' % (name, o.name), '%s; real code: %s' % (o.detail, c['failures'][0]), {'harness': name, **c}, True))
        else:
            o = obs[0]
            r['viol'].append(('%s/%s' % (name, o.name), o.detail, {'harness': name, 'choices': o.choices}, False))
    for _, why in run.unsupported:
        r['undecided'].append('outside the verifier (%s)' % why)
    if r['undecided'] or force_bounded:
        try:
            k, fail = bounded(nbounded * more)
            r['bounded'] = k
            if fail:
                r['viol'].append(('%s/%s (bounded)' % (name, fail['failures'][0][1]), str(fail['failures'][0]), {'harness': name, **fail}, True))
        except Exception as e:
            r['notes'].append('bounded stand-in unavailable for %s: %s' % (name, str(e)[-300:]))
    r['z3'] = dict(nra.stats)
    return r


def collect(rep, units, fn, bounded, limit, total, nbounded):
    """fn(unit) in children; bounded(unit, n) in children for the ones that did not answer"""
    z3s = collections.Counter()
    bn = 0
    bl = []
    lost = []
    for u, r, why in par.run(fn, units, limit, total):
        if r is None:
            rep.undecided.append('%s: no answer from the verifier (%s)' % (u, why))
            lost.append(u)
            continue
        for k, n in r['count'].items():
            rep.count[k] += n
        rep.backend.update(r['backend'])
        rep.known += r['known']
        rep.viol += r['viol']
        rep.undecided += ['%s: %s' % (r['name'], x) for x in r['undecided'][:6]]
        rep.functions |= set(r['called'])
        rep.contracts |= set(r['contracts'])
        rep.samples += r['samples']
        rep.extra['paths'] = rep.extra.get('paths', 0) + r['paths']
        z3s.update(r['z3'])
        if r['bounded']:
            bn += r['bounded']
            bl.append(r['name'])
        for n in r['notes']:
            print(n)
    n2, l2 = stand_in(rep, lost, bounded, nbounded)
    bn += n2
    bl += l2
    rep.samples = rep.samples[::max(1, len(rep.samples) // 6)][:8]
    rep.extra['solver_seconds'] = round(z3s.get('time', 0), 2)
    rep.extra['solver_queries'] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in z3s.items()}
    rep.extra['harnesses'] = [str(u) for u in units]
    if bl:
        rep.evals = bn
        rep.extra['bounded_native_runs'] = bn
        rep.extra['bounded_note'] = 'up to %d random native runs each for %s; not counted as proved' % (nbounded, sorted(set(bl)))


def stand_in(rep, units, bounded, nbounded):
    """bounded native runs for harnesses the verifier gave no answer on"""
    bn, bl = 0, []
    if not units:
        return bn, bl
    for u, r, why in par.run(lambda u: bounded(u, nbounded), units, 150):
        if r is None:
            print('bounded stand-in gave no answer for %s (%s)' % (u, why))
            continue
        k, fail = r
        bn += k
        bl.append(str(u))
        if fail:
            rep.viol.append(('%s/%s (bounded)' % (u, fail['failures'][0][1]), str(fail['failures'][0]), {'harness': str(u), **fail}, True))
    return bn, bl


def only_bounded(rep, units, bounded, nbounded):
    """the verifier cannot read the tree (it does not compile under clang): native runs only, nothing proved"""
    bn, bl = stand_in(rep, list(units), bounded, nbounded)
    rep.evals = bn
    rep.extra['bounded_native_runs'] = bn
    rep.extra['bounded_note'] = 'nothing proved: up to %d random native runs each for %s' % (nbounded, bl)
