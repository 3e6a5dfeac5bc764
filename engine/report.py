"""One property: analyse every obligation, print findings, write evidence."""
import ast
import json
import os
import sys
import time
import multiprocessing
from . import run as R
from . import main as mn
from . import interp as ip

FINDINGS = os.path.join(R.HERE, 'known-findings.txt')
EVID = os.path.join(R.HERE, 'evidence')


def known(prop):
    """finding lines: 'finding: property=C01 key=<obligation>/<label> text'"""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS, encoding='utf8'):
            line = line.strip()
            if line.startswith('finding:'):
                w = line[len('finding:'):].split(None, 2)
                if w[0] == 'property=' + prop:
                    out[w[1][len('key='):]] = w[2] if len(w) > 2 else ''
    return out


def functions_at(touched):
    """qualified names of the repository functions whose statements were interpreted"""
    byfile = {}
    for path, line in touched:
        byfile.setdefault(path, set()).add(line)
    out = set()
    for path, lines in byfile.items():
        try:
            src = ip.OVERLAY.get(path) or open(path, encoding='utf8').read()
            tree = ast.parse(src)
        except (OSError, SyntaxError):
            continue
        rel = os.path.relpath(path, R.REPO)

        def visit(node, prefix):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    q = prefix + c.name
                    if isinstance(c, ast.FunctionDef):
                        body = set(range(c.body[0].lineno, c.end_lineno + 1))
                        if body & lines:
                            out.add(rel + ':' + q)
                    visit(c, q + '.')
                else:
                    visit(c, prefix)
        visit(tree, '')
    return out


def where(site):
    if not site:
        return '(no single site)'
    path, line = site
    fn = sorted(functions_at([site]), key=len)
    return '%s:%s%s' % (os.path.relpath(path, R.REPO), line, ' in ' + fn[-1].split(':')[1] if fn else '')


def work(name):
    for o in mn.obligations():
        if o.name == name:
            r = R.check_ob(o, mn.specfiles())
            return dict(name=o.name, title=o.title, status=r.status, labels=r.labels, held=r.held, nodes=r.nodes, wall=r.wall,
                        undecided=r.undecided,
                        findings=[dict(f, where=where(f['site'])) for f in r.findings],
                        touched=sorted(r.touched), notes=r.notes[:10])


def analyse(prop):
    names = [o.name for o in mn.obligations(prop)]
    n = min(len(names), max(1, min(8, os.cpu_count() or 1)))
    if n <= 1:
        return [work(x) for x in names]
    with multiprocessing.get_context('fork').Pool(n, maxtasksperchild=4) as p:
        return p.map(work, names, 1)


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        for root, _, files in os.walk(os.path.join(R.REPO, 'glmtools')):
            for f in files:
                if f.endswith('.py') and '/test' not in root:
                    ast.parse(open(os.path.join(root, f), encoding='utf8').read(), f)
    except SyntaxError as e:
        print('source does not parse: %s' % e)
        return 2
    from . import classic
    res = analyse(prop)
    extra = classic.run(prop)
    res += extra
    if not res:
        print('no obligations for %s' % prop)
        return 2
    kf = known(prop)
    bad, listed, undecided = [], [], []
    decided = 0
    funcs = set()
    sites = 0
    for r in res:
        t = [tuple(x) for x in r['touched']]
        funcs |= functions_at(t) | set(r.get('functions', ()))
        sites += len(set(t))
        seen = set()
        for f in r['findings']:
            key = '%s/%s' % (r['name'], f['label'])
            (listed if key.replace(' ', '_') in kf else bad).append((r['name'], f, key))
        for l, w in r['undecided']:
            undecided.append((r['name'], l, w))
        if r['status'] in ('holds', 'violated') or r.get('held'):
            decided += 1
        st = 'partly' if r['status'] == 'undecided' and r.get('held') else r['status']
        print('%-10s %s.%s: %d compared values, %d value-graph nodes, %d statements (%.1fs)' % (
            st, prop, r['name'], r['labels'], r['nodes'], len(set(t)), r['wall']))
    for n, l, w in undecided:
        print('UNDECIDED property=%s obligation=%s label=%s: %s' % (prop, n, l, w))
    done = set()
    for n, f, key in listed:
        if key not in done:
            done.add(key)
            print('KNOWN-FINDING: property=%s %s at %s: %s' % (prop, key, f['where'], kf[key.replace(' ', '_')]))
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, prop + '.replay.txt')
    lines = []
    for n, f, key in bad:
        lines.append('property %s, obligation %s, observed value "%s"' % (prop, n, f['label']))
        lines.append('  construct : %s' % f['where'])
        lines.append('  rule      : %s' % f['what'])
        lines.append('  code      : %s' % f['impl'])
        lines.append('  required  : %s' % f['spec'])
        lines.append('  again     : cd /verif && python3 check.py --debug %s' % n)
    text = '\n'.join(lines)
    if bad:
        open(replay, 'w').write(text + '\n')
        print(text)
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    elif os.path.exists(replay):
        os.remove(replay)
    cov = dict(
        explanation='Static value-dependence analysis: for each obligation the source of the listed functions is abstractly '
                    'interpreted (values are hash-consed expression terms over the symbolic inputs, joined at control-flow merges, loops '
                    'summarised as comprehensions/folds) and the resulting value numbers are compared with those of the written rule. '
                    'Nothing of the repository is executed and no solver is used.',
        rule='equal value number for every observed output and equal raise condition per exception type',
        obligations=len(res), decided=decided, undecided=[list(u) for u in undecided],
        values_compared=sum(r['labels'] for r in res), values_equal=sum(r.get('held', 0) for r in res), value_graph_nodes=sum(r['nodes'] for r in res),
        functions_analysed=sorted(funcs), statements_analysed=sites,
        known_findings=sorted(set(k for _, _, k in listed)),
        samples=[dict(obligation=r['name'], status=r['status'], values=r['labels'], equal=r.get('held', 0)) for r in res[:5]])
    if tier == 'thorough':
        from . import mutate
        cov['sensitivity'] = mutate.sensitivity(prop, seed)
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov,
              assumptions=['library models of numpy, xarray, pandas, pyclipper, scipy calls in engine/models.py',
                           'real arithmetic: floating point rounding is not modelled'],
              wall_s=round(time.time() - t0, 2), violations=len(bad))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if bad:
        return 1
    if not decided:
        print('no obligation of %s could be decided on this tree' % prop)
        return 2
    return 0
