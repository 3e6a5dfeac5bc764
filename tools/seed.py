"""Make and confirm a planted bug: seed(id, prop, [(file, old, new)], needs, breaks, demo)."""
import json
import os
import re
import shutil
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run in the root of the source tree
export PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr


def seed(id, prop, edits, needs, breaks, demo, extra=None, quiet=False):
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    for n, t in (extra or {}).items():
        open(os.path.join(d, n), 'w').write(t.lstrip('\n'))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    w = '/tmp/seedwork_' + id
    if os.path.exists(w):
        shutil.rmtree(w)
    sh('cp -a /repo ' + w)
    ok = True
    try:
        c, out = sh(d + '/demo.sh', w)
        if c != 0:
            print(id, 'DEMO FAILS ON CLEAN TREE', out[-1500:])
            ok = False
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'edit matches', s.count(old), 'times:', old)
                return False
            open(p, 'w').write(s.replace(old, new))
        c, diff = sh('git diff', w)
        open(d + '/patch.diff', 'w').write(diff)
        # lines added by later commits must not be touched
        for f, old, new in edits:
            c, bl = sh('git blame -s HEAD -- ' + f, w)
            touched = set()
            cur = None
            for line in sh('git diff -U0 -- ' + f, w)[1].splitlines():
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
                if m:
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    touched |= set(range(a, a + n))
            for i, l in enumerate(bl.splitlines(), 1):
                if i in touched and not l.startswith('^'):
                    print(id, 'WARNING touches own line', l)
        c, out = sh(d + '/demo.sh', w)
        if c == 0:
            print(id, 'DEMO PASSES WITH PATCH', out[-500:])
            ok = False
        elif not quiet:
            print(id, 'demo with patch:', out.strip().splitlines()[-1:] )
        c, out = sh('PYTHONPATH=$PWD /opt/venv/bin/python -m pytest -q -x --deselect glmtools/test/test_event_lut.py::test_lut_events glmtools/test', w)
        last = out.strip().splitlines()[-1]
        if 'failed' in last or 'error' in last:
            print(id, 'TESTS', out[-800:])
            ok = False
    finally:
        shutil.rmtree(w)
    print(id, 'ok' if ok else 'BAD')
    return ok


def checks(ids=None, allprops=False):
    """apply each planted bug to /repo, run its property's check, undo"""
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    claimed = [c['property'] for c in man['checks']]
    res = {}
    for id in sorted(os.listdir(HERE + '/seeded')):
        if ids and id not in ids:
            continue
        d = HERE + '/seeded/' + id
        meta = json.load(open(d + '/meta.json'))
        c, out = sh('git -C /repo apply %s/patch.diff' % d)
        if c:
            print(id, 'patch does not apply', out)
            continue
        try:
            hits = []
            for p in (claimed if allprops else [meta['property']]):
                c, out = sh('python3 check.py ' + p, HERE)
                if c == 1:
                    hits.append(p)
                elif c:
                    hits.append('%s?%d' % (p, c))
            und = [l for l in out.splitlines() if l.startswith('UNDECIDED')]
        finally:
            sh('git -C /repo checkout -- .')
        good = meta['property'] in hits
        res[id] = hits
        print(id, meta['property'], 'CAUGHT' if good else 'MISSED', hits if allprops else '', und[:2] if not good else '')
    return res


if __name__ == '__main__':
    import sys
    checks([a for a in sys.argv[1:] if not a.startswith('-')] or None, '--all' in sys.argv)
