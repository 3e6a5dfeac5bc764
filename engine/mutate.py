"""Sensitivity of the rules: edit the analysed source in memory (it is only
parsed and analysed, never run) and see whether the analysis reports."""
import ast
import copy
import os
import random
import multiprocessing
from . import run as R
from . import main as mn
from . import interp as ip

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.BitAnd: ast.BitOr,
       ast.BitOr: ast.BitAnd, ast.Pow: ast.Mult}


def funcs(tree):
    out = []

    def visit(node, prefix):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(c, ast.FunctionDef):
                    out.append((prefix + c.name, c))
                visit(c, prefix + c.name + '.')
    visit(tree, '')
    return out


def is_doc(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)


def is_log(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).split('.')[0] in ('log', 'print', 'log_debug')


def edits(fn):
    """(description, apply) pairs; apply edits the tree in place and returns an undo"""
    names = sorted({a.arg for a in fn.args.args} | {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
    strs = sorted({n.value for n in ast.walk(fn) if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 50 and '\n' not in n.value})
    attrs = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            attrs.setdefault(ast.unparse(n.value), set()).add(n.attr)
    skip = set()
    for n in ast.walk(fn):
        if is_doc(n) or is_log(n) or isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(id(m))

    def setter(node, field, new):
        def ap():
            old = getattr(node, field)
            setattr(node, field, new)
            return lambda: setattr(node, field, old)
        return ap

    def lsetter(lst, i, new):
        def ap():
            old = lst[:]
            lst[i:i + 1] = new
            if not lst:
                lst.append(ast.Pass())

            def undo():
                lst[:] = old
            return undo
        return ap
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                if type(o) in CMP:
                    yield 'L%d cmp %s' % (ln, type(o).__name__), lsetter(n.ops, i, [CMP[type(o)]()])
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            yield 'L%d binop %s' % (ln, type(n.op).__name__), setter(n, 'op', BIN[type(n.op)]())
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield 'L%d drop minus' % ln, setter(n, 'op', ast.UAdd())
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert):
            yield 'L%d drop invert' % ln, setter(n, 'op', ast.UAdd())
        if isinstance(n, ast.Constant):
            if type(n.value) is bool:
                yield 'L%d const %r' % (ln, n.value), setter(n, 'value', not n.value)
            elif type(n.value) is int:
                yield 'L%d const %r' % (ln, n.value), setter(n, 'value', n.value + 1)
            elif type(n.value) is float:
                yield 'L%d const %r' % (ln, n.value), setter(n, 'value', n.value * 2 + 1)
            elif type(n.value) is str and n.value in strs and len(strs) > 1:
                o = strs[(strs.index(n.value) + 1) % len(strs)]
                yield 'L%d str %r->%r' % (ln, n.value, o), setter(n, 'value', o)
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    if ast.dump(n.args[i]) != ast.dump(n.args[i + 1]):
                        def ap(n=n, i=i):
                            n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]

                            def undo():
                                n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
                            return undo
                        yield 'L%d swap args %d of %s' % (ln, i, ast.unparse(n.func)), ap
            for i, k in enumerate(n.keywords):
                if k.arg is not None:
                    yield 'L%d drop keyword %s' % (ln, k.arg), lsetter(n.keywords, i, [])
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            alts = sorted(attrs[ast.unparse(n.value)])
            if len(alts) > 1:
                o = alts[(alts.index(n.attr) + 1) % len(alts)]
                yield 'L%d attr %s->%s' % (ln, n.attr, o), setter(n, 'attr', o)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
            o = names[(names.index(n.id) + 1) % len(names)]
            yield 'L%d name %s->%s' % (ln, n.id, o), setter(n, 'id', o)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if id(s) in skip or not isinstance(s, ast.stmt):
                        continue
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Return)) and (isinstance(s, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break)) or isinstance(s, ast.Assign)):
                        yield 'L%d delete %s' % (s.lineno, ast.unparse(s)[:50]), lsetter(b, i, [ast.Pass()])
        if isinstance(n, ast.If):
            yield 'L%d negate if' % ln, setter(n, 'test', ast.UnaryOp(ast.Not(), n.test))
            yield 'L%d if True' % ln, setter(n, 'test', ast.Constant(True))
            yield 'L%d if False' % ln, setter(n, 'test', ast.Constant(False))
        if isinstance(n, ast.Slice):
            for f in ('lower', 'upper', 'step'):
                if getattr(n, f) is not None:
                    yield 'L%d drop slice %s' % (ln, f), setter(n, f, None)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and isinstance(n.ctx, ast.Load):
            def ap2(n=n):
                n.slice.elts.reverse()
                return n.slice.elts.reverse
            yield 'L%d swap subscripts' % ln, ap2


def mutants(path, quals=None):
    src = open(path, encoding='utf8').read()
    tree = ast.parse(src)
    for q, fn in funcs(tree):
        if quals is not None and q not in quals:
            continue
        seen = set()
        for desc, ap in list(edits(fn)):
            undo = ap()
            try:
                ast.fix_missing_locations(tree)
                text = ast.unparse(tree)
                compile(text, path, 'exec')
            except Exception:
                text = None
            undo()
            if text is not None and text not in seen:
                seen.add(text)
                yield q, desc, text


def obs_touching(path, q, table):
    return [n for n, fs in table.items() if (path, q) in fs]


_TABLE = None


def table(prop=None):
    """obligation -> set of (path, qualname) analysed"""
    from .report import functions_at
    names = [o.name for o in mn.obligations(prop)]
    with multiprocessing.get_context('fork').Pool(8) as p:
        rs = p.map(_touch, names, 1)
    out = {}
    for n, fs in zip(names, rs):
        out[n] = fs
    return out


def _touch(name):
    from .report import functions_at
    for o in mn.obligations():
        if o.name == name:
            r = R.check_ob(o, mn.specfiles())
            return {(os.path.join(R.REPO, f.split(':')[0]), f.split(':')[1]) for f in functions_at(r.touched)}


def _run(job):
    path, q, desc, text, names = job
    ip.OVERLAY.clear()
    ip.OVERLAY[path] = text
    und = []
    try:
        for o in mn.obligations():
            if o.name in names:
                r = R.check_ob(o, mn.specfiles())
                if r.status == 'violated':
                    return q, desc, 'caught', o.name, r.findings[0]['label']
                if r.status != 'holds':
                    und.append('%s: %s' % (o.name, r.undecided[0][1][:110]))
    except Exception as e:
        return q, desc, 'crash', str(e), ''
    finally:
        ip.OVERLAY.clear()
    return q, desc, ('undecided' if und else 'survived'), '; '.join(und[:2]), ''


def jobs(prop=None, only=None, limit=None, seed=1):
    tab = table(prop)
    quals = {}
    for n, fs in tab.items():
        for p, q in fs:
            quals.setdefault(p, set()).add(q)
    out = []
    for p in sorted(quals):
        for q, desc, text in mutants(p, quals[p]):
            if only and not any(x in q or x in p for x in only):
                continue
            out.append((p, q, desc, text, obs_touching(p, q, tab)))
    if limit and len(out) > limit:
        random.Random(seed).shuffle(out)
        out = out[:limit]
    return out


def sensitivity(prop, seed, limit=120):
    js = jobs(prop, limit=limit, seed=seed)
    n = {'caught': 0, 'survived': 0, 'undecided': 0, 'crash': 0}
    ex = []
    with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=50) as p:
        for q, desc, st, a, b in p.imap_unordered(_run, js, 1):
            n[st] += 1
            if st == 'caught' and len(ex) < 5:
                ex.append('%s %s -> %s/%s' % (q, desc, a, b))
    return dict(edited_sources_analysed=len(js), reported=n['caught'], equivalent_or_missed=n['survived'],
                undecided=n['undecided'], examples=ex)


def main(argv):
    only = [a for a in argv if not a.startswith('-')]
    prop = None
    js = jobs(prop, only=only)
    tot = {}
    with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=50) as p:
        for q, desc, st, a, b in p.imap(_run, js, 1):
            tot[st] = tot.get(st, 0) + 1
            if st != 'caught':
                print('%-10s %-45s %s   %s' % (st, q, desc, a))
    print(tot)
