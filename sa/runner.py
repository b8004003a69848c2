"""Runs the checks of one property, writes the evidence and reports violations."""
import json, os, sys, time, traceback
import driver
from interp import AnalysisError
import props

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.environ.get('K8PSH_EVID') or os.path.join(VERIF, 'evidence')
DEBUG = ('-DDEBUG',)


def known():
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l[8:].split(' | ')[0].split() if '=' in x)
                d['text'] = l.split(' | ', 1)[1] if ' | ' in l else l
                out.append(d)
    except FileNotFoundError:
        pass
    return out


def n(x):
    return len(x) if isinstance(x, (set, frozenset, list, dict)) else x


def site_of(v):
    """Function-level identity of a violation, stable under line changes."""
    return v.stack[-1].split(' (')[0].replace(' ', '') if v.stack else v.where


def analyse(cls, cfg, budget):
    """Runs the levels of a monitor; returns the monitor of the last level run."""
    last = None
    for lv in cls.levels:
        m = cls()
        for k, v in lv.items():
            setattr(m, k, v)
        try:
            m.run(cfg, budget)
        except AnalysisError:
            if not m.violations or lv is not cls.levels[-1]:
                raise
        last = m
        if not m.violations:
            return m
    return last


def main(argv):
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    cls = props.ALL[pid]
    cfgs = [DEBUG] if tier == 'quick' else [DEBUG, ()]
    viol, stats, runs = [], {}, []
    try:
        for cfg in cfgs:
            m = analyse(cls, cfg, 800 if tier == 'quick' else 3000)
            runs.append(m)
            viol += list(m.violations.values())
            for k, x in m.stats.items():
                stats.setdefault(k, 0)
                stats[k] = max(stats[k], n(x))
            if not m.violations:
                for k, x in cls.need.items():
                    if n(m.stats.get(k, 0)) < x:
                        raise AnalysisError('anchor "%s" of property %s: found %s, expected at least %d' % (k, pid, n(m.stats.get(k, 0)), x))
    except AnalysisError as e:
        print('ERROR: %s: %s' % (pid, e))
        I = getattr(runs[-1] if runs else None, 'I', None)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    kf = known()
    new, seen = [], set()
    for v in viol:
        k = next((x for x in kf if x.get('property') == pid and x.get('rule') == v.rule and x.get('site') == site_of(v)), None)
        if k is not None:
            if id(k) not in seen:
                seen.add(id(k))
                print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
        else:
            new.append(v)
    m = runs[0]
    cov = m.coverage(stats)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'assumptions': list(cls.assumes), 'wall_s': round(time.time() - t0, 1), 'violations': len(new)}
    os.makedirs(os.path.join(EVID), exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    if new:
        rp = os.path.join(EVID, pid + '.violation.json')
        json.dump([{'property': pid, 'rule': v.rule, 'what': v.msg, 'where': v.where, 'path': v.stack, 'detail': v.detail} for v in new], open(rp, 'w'), indent=1)
        for v in new[:12]:
            print('%s: %s: %s' % (v.where, v.rule, v.msg))
            for s in v.stack:
                print('    in ' + s)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s: holds (%.0f s): %s' % (pid, time.time() - t0, ', '.join('%s %s' % (k, stats[k]) for k in sorted(stats) if not k.startswith('calls treated'))))
    return 0
