#!/usr/bin/env python3
"""seedtest.py [id...]: for each planted bug in /verif/seeded: demo passes on the clean tree; with the patch the tree builds, the stable tests pass,
the demo fails and the property's quick check reports a violation.  Works on /repo and restores it."""
import sys, os, json, subprocess, time
S = '/verif/seeded'
ids = sys.argv[1:] or sorted(os.listdir(S))
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def reset(): run(['git', '-C', '/repo', 'checkout', '--', '.'])
assert not run(['git', '-C', '/repo', 'status', '--porcelain', '-uno']).stdout.strip(), 'dirty /repo'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for i in ids:
    d = S + '/' + i; meta = json.load(open(d + '/meta.json')); out = []
    try:
        r = run(['bash', d + '/demo.sh'], cwd='/repo', timeout=300); out.append('clean demo %d' % r.returncode)
        if r.returncode: print(r.stdout[-1500:])
        r = run(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
        if r.returncode: print(i, 'APPLY FAILED', r.stdout); continue
        if '--nobuild' not in sys.argv and not os.environ.get('NOBUILD'):
            r = run(['bash', '/opt/vp/build.sh']); out.append('build %d' % r.returncode)
            if r.returncode: print(r.stdout[-1500:])
            run(['bash', '/opt/vp/test.sh', '/tmp/seed_out.json']); ps = set(json.load(open('/tmp/seed_out.json'))['passed']); out.append('stable failing %d' % len(stable - ps)); 
            if stable - ps: print(sorted(stable - ps)[:5])
        r = run(['bash', d + '/demo.sh'], cwd='/repo', timeout=300); out.append('bug demo %d' % r.returncode)
        t = time.time(); r = run(['python3', '/verif/check.py', meta['property'], 'quick'], env=dict(os.environ, SX_NO_EVIDENCE='1')); out.append('check %d (%.0fs)' % (r.returncode, time.time() - t))
        ok = r.returncode == 1 and 'VIOLATION property=' + meta['property'] in r.stdout
        print(i, meta['property'], ' '.join(out), 'CAUGHT' if ok else 'MISSED'); sys.stdout.flush()
        rf = '/verif/tools/seed_results.json'; res = json.load(open(rf)) if os.path.exists(rf) else {}
        res[i] = bool(ok); json.dump(dict(sorted(res.items())), open(rf, 'w'), indent=1)
        if not ok or os.environ.get('V'): print(r.stdout[-2500:])
    finally: reset()
run(['bash', '/opt/vp/build.sh'])
