#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current tree."""
import json, os, sys, time, tempfile, shutil, argparse, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import ROOT, REPO, Broken
import build_ir

def registry():
    import light, absint
    return {**light.CHECKS, **absint.CHECKS}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    tmp = tempfile.mkdtemp(prefix='wdnsck-')
    try:
        fn = registry()[pid]
        res = fn(REPO, tmp, a.tier)
    except (Broken, build_ir.BuildError) as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = json.load(open(os.path.join(ROOT, 'known-findings.json')))['findings']
    kk = {k['key']: k for k in known if k['property'] == pid}
    viol, seen = [], set()
    for v in res['violations']:
        if v['key'] in kk:
            if v['key'] not in seen:
                print('KNOWN-FINDING: property=%s %s' % (pid, kk[v['key']]['what']))
            seen.add(v['key'])
        else:
            viol.append(v)
    ev = {'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': res['level'],
          'coverage': res['coverage'], 'assumptions': res.get('assumptions', []), 'wall_s': round(time.time() - t0, 2),
          'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if viol:
        rp = os.path.join(ROOT, 'evidence', 'replay-%s.json' % pid)
        with open(rp, 'w') as f:
            json.dump(viol, f, indent=1)
        for v in viol[:20]:
            print('%s: %s\n    at %s' % (v.get('rule', ''), v['what'], v.get('loc', '?')))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s %s' % (pid, json.dumps({k: v for k, v in res['coverage'].items() if isinstance(v, (int, bool))})))
    return 0

if __name__ == '__main__':
    sys.exit(main())
