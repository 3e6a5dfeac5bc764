import glob
import json
import os
import sys
import time
from . import run as R
from .terms import show

HERE = R.HERE


def specfiles():
    return sorted(glob.glob(os.path.join(HERE, 'spec', '*.py')))


def obligations(prop=None):
    out = []
    for p in specfiles():
        tree, obs, refs = R.load_spec(p)
        for o in obs:
            if prop is None or prop in o.props:
                out.append(o)
    return out


def debug(argv):
    names = argv
    for ob in obligations():
        if names and not any(n in (ob.name,) or n in ob.props for n in names):
            continue
        r = R.check_ob(ob, specfiles(), verbose=True)
        print('%-34s %-10s labels=%d nodes=%d %.2fs' % (ob.name, r.status, r.labels, r.nodes, r.wall))
        for f in r.findings:
            print('   FINDING', f['label'], f['what'], f['site'])
            print('      impl:', f['impl'])
            print('      spec:', f['spec'])
        for l, w in r.undecided:
            print('   undecided', l, w)
        if r.status != 'holds':
            for n in r.notes[:5]:
                print('   note:', n)
            for n in r.spec_notes[:5]:
                print('   spec note:', n)


def main(argv):
    if argv and argv[0] == '--debug':
        debug(argv[1:])
        return 0
    if argv and argv[0] == '--mutate':
        from . import mutate
        mutate.main(argv[1:])
        return 0
    from . import report
    return report.main(argv)
