#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decides one property of /repo's current source (static analysis only).

exit 0: every obligation of the property that could be decided holds (undecided ones are listed in the evidence)
exit 1: a construct violates it (a line VIOLATION property=<id> replay=<path>)
exit 2: analysis broken (package cannot be read, or none of the property's anchors is left)"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.front import Program, AnchorMissing          # noqa: E402
from sa import rules                                 # noqa: E402


def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    pid = args[0]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = rules.load_known(os.path.join(HERE, 'known-findings.txt'))
    try:
        prog = Program()
        run = rules.Run(prog, pid, tier, seed)
        run.go()
    except (AnchorMissing, SyntaxError, OSError) as e:
        print('analysis broken: %s: %s' % (type(e).__name__, e))
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        print('analysis broken: internal error')
        return 2
    findings = run.findings
    new = []
    for f in findings:
        k = [x for x in known if x[0] == pid and x[1] == f.key]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, f.text))
        else:
            new.append(f)
    cov = run.coverage()
    cov['known_findings'] = len(findings) - len(new)
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, assumptions=rules.ASSUMPTIONS,
              wall_s=round(time.time() - t0, 3), violations=len(new))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    out = os.path.join(HERE, 'evidence', pid + '.json')
    with open(out, 'w') as h:
        json.dump(ev, h, indent=1, sort_keys=True)
        h.write('\n')
    n = cov
    print('%s %s: %d obligations, %d hold, %d violated, %d undecided (%.1f s)' % (
        pid, tier, n['obligations'], n['holding'], len(findings), n['undecided_count'], time.time() - t0))
    if cov['obligations'] == 0 or run.broken:
        print('analysis broken: %s' % (run.broken or 'no obligation left to decide'))
        return 2
    if new:
        rp = os.path.join(HERE, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as h:
            for f in new:
                h.write('%s\n  rule: %s\n  at: %s\n  %s\n\n' % (f.key, f.rule, f.where, f.text))
        for f in new[:20]:
            print('%s: %s [%s]\n    %s' % (f.where, f.key, f.rule, f.text[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
