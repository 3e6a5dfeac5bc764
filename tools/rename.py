"""Consistent renames of functions, methods, classes and attributes over the
whole package, and additional attributes on its objects.  The analysis must
stay quiet on every one of them.
usage: python3 tools/rename.py [substrings of what is renamed] [kind=...]"""
import ast
import multiprocessing
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from engine import run as R
from engine import main as mn
from engine import interp as ip


def sources():
    out = []
    for d in ('glmtools', 'examples'):
        for w, ds, fs in os.walk(os.path.join(R.REPO, d)):
            ds[:] = [x for x in ds if x != 'test']
            out += [os.path.join(w, f) for f in fs if f.endswith('.py') and not f.startswith('test_')]
    return {p: open(p, encoding='utf8').read() for p in sorted(out)}


class Ren(ast.NodeTransformer):
    def __init__(self, old, new, attr, name):
        self.old, self.new, self.attr, self.name = old, new, attr, name

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if self.attr and n.attr == self.old:
            n.attr = self.new
        return n

    def visit_Name(self, n):
        if self.name and n.id == self.old:
            n.id = self.new
        return n

    def visit_alias(self, n):
        if self.name and n.name == self.old:
            n.name = self.new
        return n

    def fd(self, n):
        self.generic_visit(n)
        if n.name == self.old:
            n.name = self.new
        return n
    visit_FunctionDef = visit_ClassDef = fd


def jobs():
    src = sources()
    trees = {p: ast.parse(s) for p, s in src.items()}
    funcs, meths, classes, attrs = set(), set(), set(), set()
    stored = {}
    for p, t in trees.items():
        for n in t.body:
            if isinstance(n, ast.FunctionDef):
                funcs.add(n.name)
            if isinstance(n, ast.ClassDef):
                classes.add(n.name)
                for m in n.body:
                    if isinstance(m, ast.FunctionDef) and not m.name.startswith('__'):
                        meths.add(m.name)
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                        attrs.add(x.attr)
    for kind, names in (('function', funcs), ('method', meths), ('class', classes), ('attribute', attrs)):
        for n in sorted(names):
            new = n + '_'
            over = {}
            for p, s in src.items():
                t = ast.parse(s)
                Ren(n, new, True, kind in ('function', 'class')).visit(t)
                u = ast.unparse(t)
                if u != ast.unparse(trees[p]):
                    over[p] = u
            yield kind, n, over
    for p, s in src.items():
        for k, c in enumerate(x for x in trees[p].body if isinstance(x, ast.ClassDef)):
            t = ast.parse(s)
            c2 = [x for x in t.body if isinstance(x, ast.ClassDef)][k]
            for m in c2.body:
                if isinstance(m, ast.FunctionDef) and m.name == '__init__':
                    m.body.append(ast.parse('self._extra = 0').body[0])
                    ast.fix_missing_locations(t)
                    yield 'added', c.name, {p: ast.unparse(t)}


def work(j):
    kind, n, over = j
    ip.OVERLAY.clear()
    ip.OVERLAY.update(over)
    bad, und = [], 0
    for o in mn.obligations():
        r = R.check_ob(o, mn.specfiles())
        if r.status == 'violated':
            bad.append((o.name, [(f['label'], f['impl'][:150], f['spec'][:150]) for f in r.findings[:2]]))
        elif r.status != 'holds':
            und += 1
    return kind, n, len(over), bad, und


def main(argv):
    kinds = [a.split('=')[1].split(',') for a in argv if a.startswith('kind=')]
    only = [a for a in argv if '=' not in a]
    js = [j for j in jobs() if (not kinds or j[0] in kinds[0]) and (not only or any(x in j[1] for x in only))]
    print(len(js), 'variants', flush=True)
    with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=5) as pool:
        for kind, n, k, bad, und in pool.imap(work, js, 1):
            print('%-6s %s %s files=%d undecided=%d' % ('ALARM' if bad else 'quiet', kind, n, k, und), flush=True)
            for b in bad:
                print('      ', b, flush=True)


if __name__ == '__main__':
    main(sys.argv[1:])
