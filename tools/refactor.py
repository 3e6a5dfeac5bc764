"""Rewrites of the analysed source that keep its behaviour, one site at a time.
The analysis must stay quiet on every one of them.
usage: python3 tools/refactor.py [substrings of file or function] [kind=...]"""
import ast
import copy
import multiprocessing
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from engine import mutate as M
from engine import run as R
from engine import main as mn
from engine import interp as ip

FLIP = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def names_in(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def local_names(fn):
    a = fn.args
    out = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
    for x in (a.vararg, a.kwarg):
        if x:
            out.add(x.arg)
    return out


def blocks(fn):
    for n in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


EFFECT = {'append', 'send', 'pop', 'update', 'extend', 'write', 'add', 'close', 'next', 'setdefault', 'insert', 'remove', 'popitem', 'load',
          'scatter', 'text', 'clf', 'add_subplot', 'imshow', 'draw', 'colorbar', 'add_axes', 'figure', 'tight_layout', 'getroot', 'iter', 'tee', 'readline'}


def effects(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            f = x.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if name in EFFECT:
                return True
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
            return True
    return False


def hoistable(stmt):
    """(holder, field, index, expr) evaluated unconditionally and once in stmt"""
    out = []

    def visit(n, top):
        for f, v in ast.iter_fields(n):
            vs = v if isinstance(v, list) else [v]
            for i, c in enumerate(vs):
                if not isinstance(c, ast.AST):
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.IfExp, ast.stmt)):
                    if not isinstance(c, ast.stmt) and not isinstance(c, ast.Lambda):
                        pass
                    continue
                if isinstance(c, ast.BoolOp):
                    continue
                if isinstance(c, ast.expr) and isinstance(getattr(c, 'ctx', ast.Load()), ast.Load) and \
                        isinstance(c, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript, ast.Compare, ast.UnaryOp)):
                    out.append((n, f, i if isinstance(v, list) else None, c))
                if not (isinstance(c, (ast.Attribute, ast.Subscript, ast.Tuple)) and isinstance(c.ctx, ast.Store)):
                    visit(c, False)
    visit(stmt, True)
    return out


def rewrites(tree, fn, qual):
    """yield (kind, description, do) ; do edits the tree in place (on a private copy)"""
    params = local_names(fn)
    stores = names_in(fn, ast.Store)
    has_nested = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn)
    doc = {id(x) for s in ast.walk(fn) if M.is_doc(s) for x in ast.walk(s)}

    # rename all locals
    def rename():
        m = {n: n + '_v' for n in stores - params}
        glob = {g for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names}
        inner = {a for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn for a in local_names(x)}
        imported = {a.asname or a.name.split('.')[0] for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in m and x.id not in glob and x.id not in inner and x.id not in imported:
                x.id = m[x.id]
        for x in ast.walk(fn):
            if isinstance(x, ast.ExceptHandler) and x.name in m:
                x.name = m[x.name]
    yield 'rename', 'locals', rename

    # helper around the whole body
    if not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)) and not fn.decorator_list and '.' not in qual and \
            not has_nested and not fn.args.kwarg and not fn.args.vararg:
        def outline():
            h = copy.deepcopy(fn)
            h.name = '_' + fn.name + '_impl'
            i = tree.body.index(fn)
            tree.body.insert(i, h)
            args = [ast.Name(a.arg, ast.Load()) for a in fn.args.args]
            fn.body = fn.body[:1] * M.is_doc(fn.body[0]) + [ast.Return(ast.Call(ast.Name(h.name, ast.Load()), args, []))]
        yield 'outline', 'body', outline

    for b in blocks(fn):
        for si, s in enumerate(b):
            if M.is_doc(s):
                continue
            line = s.lineno
            # hoist
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign, ast.If, ast.For)):
                target = s
                if isinstance(s, ast.If):
                    roots = [s.test] if not isinstance(s.test, (ast.BoolOp, ast.IfExp)) else []
                elif isinstance(s, ast.For):
                    roots = [s.iter]
                elif isinstance(s, ast.AugAssign):
                    roots = [s.value]
                else:
                    roots = [s]
                for r in roots:
                    holder = s
                    cands = hoistable(r) if r is s else []
                    if r is not s and isinstance(r, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript, ast.Compare)):
                        cands = [(s, {'If': 'test', 'For': 'iter', 'AugAssign': 'value'}[type(s).__name__], None, r)] + hoistable(r)
                    for (h, f, i, e) in cands:
                        if effects(e) and len(cands) > 1:
                            continue
                        if isinstance(h, ast.Call) and f == 'func':
                            continue
                        if isinstance(e, (ast.Attribute,)) and isinstance(h, (ast.Attribute, ast.Subscript)) and isinstance(e.value, ast.Name) and e.value.id in ('np', 'os', 'xr', 'pd', 'ccrs', 'cfeature', 'cartopy', 'plt'):
                            continue
                        if isinstance(h, ast.Attribute) and isinstance(h.ctx, ast.Store) or isinstance(h, ast.Subscript) and isinstance(h.ctx, ast.Store) and f == 'value':
                            pass

                        def hoist(b=b, s=s, h=h, f=f, i=i, e=e):
                            k = b.index(s)
                            nm = ast.Name('tmp_h', ast.Load())
                            b.insert(k, ast.Assign([ast.Name('tmp_h', ast.Store())], e))
                            if i is None:
                                setattr(h, f, nm)
                            else:
                                getattr(h, f)[i] = nm
                        yield 'hoist', 'L%d %s' % (line, ast.unparse(e)[:60]), hoist

                        if isinstance(e, (ast.BinOp, ast.Call, ast.Compare)) and not effects(e) and '.' not in qual and not has_nested:
                            free = sorted((names_in(e, ast.Load) - names_in(e, ast.Store)) & (stores | params))

                            def helper(h=h, f=f, i=i, e=e, free=free):
                                a = ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in free], kwonlyargs=[], kw_defaults=[], defaults=[])
                                d = ast.FunctionDef(name='_part_of_' + fn.name, args=a, body=[ast.Return(copy.deepcopy(e))], decorator_list=[])
                                # local imports stay with the helper
                                imps = [copy.deepcopy(x) for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom))]
                                d.body[:0] = imps
                                tree.body.insert(tree.body.index(fn), d)
                                c = ast.Call(ast.Name(d.name, ast.Load()), [ast.Name(n, ast.Load()) for n in free], [])
                                if i is None:
                                    setattr(h, f, c)
                                else:
                                    getattr(h, f)[i] = c
                            yield 'helper', 'L%d %s' % (line, ast.unparse(e)[:60]), helper
            # inline
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and si + 1 < len(b):
                n = s.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == n]
                nxt = b[si + 1]
                here = [x for x in ast.walk(nxt) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load)] \
                    if isinstance(nxt, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) else []
                if len(uses) == 2 and len(here) == 1 and not has_nested and not isinstance(s.value, (ast.ListComp,)) and not any(
                        isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.DictComp)) for x in ast.walk(nxt)):
                    def inline(b=b, s=s, nxt=nxt, n=n):
                        class Sub(ast.NodeTransformer):
                            def visit_Name(self, x):
                                return s.value if x.id == n and isinstance(x.ctx, ast.Load) else x
                        Sub().visit(nxt)
                        b.remove(s)
                    yield 'inline', 'L%d %s' % (line, n), inline
            # if/else
            if isinstance(s, ast.If):
                if s.orelse:
                    def inv(s=s):
                        t = s.test
                        if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in NEG:
                            t.ops = [NEG[type(t.ops[0])]()]
                        else:
                            s.test = ast.UnaryOp(ast.Not(), t)
                        s.body, s.orelse = s.orelse, s.body
                    yield 'invert', 'L%d' % line, inv
                if s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                    def unelse(b=b, s=s):
                        k = b.index(s)
                        b[k + 1:k + 1] = s.orelse
                        s.orelse = []
                    yield 'unelse', 'L%d' % line, unelse
                if not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and b[si + 1:]:
                    def toelse(b=b, s=s):
                        k = b.index(s)
                        s.orelse = b[k + 1:]
                        del b[k + 1:]
                    yield 'toelse', 'L%d' % line, toelse
                if len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(x, ast.Assign) for x in s.body + s.orelse) and \
                        ast.unparse(s.body[0].targets[0]) == ast.unparse(s.orelse[0].targets[0]):
                    def tern(b=b, s=s):
                        k = b.index(s)
                        b[k] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
                    yield 'ternary', 'L%d' % line, tern
                if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
                    def nest(s=s):
                        t = s.test
                        s.test = t.values[0]
                        rest = t.values[1] if len(t.values) == 2 else ast.BoolOp(ast.And(), t.values[1:])
                        s.body = [ast.If(rest, s.body, [])]
                    yield 'nestif', 'L%d' % line, nest

                def flag(b=b, s=s):
                    k = b.index(s)
                    b.insert(k, ast.Assign([ast.Name('flag_h', ast.Store())], s.test))
                    s.test = ast.Name('flag_h', ast.Load())
                yield 'flag', 'L%d' % line, flag
            # list comprehension <-> loop
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and isinstance(s.targets[0], ast.Name):
                def unroll(b=b, s=s):
                    g = s.value.generators[0]
                    n = 'acc_h'
                    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(n, ast.Load()), 'append', ast.Load()), [s.value.elt], []))]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    # comprehension variables must not clash
                    m = {x: x + '_c' for x in names_in(g.target)}
                    loop = ast.For(g.target, g.iter, body, [])
                    it = copy.deepcopy(g.iter)
                    for x in ast.walk(loop):
                        if isinstance(x, ast.Name) and x.id in m:
                            x.id = m[x.id]
                    loop.iter = it
                    k = b.index(s)
                    b[k:k + 1] = [ast.Assign([ast.Name(n, ast.Store())], ast.List([], ast.Load())), loop,
                                  ast.Assign(s.targets, ast.Name(n, ast.Load()))]
                yield 'comp2loop', 'L%d' % line, unroll
            if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) and \
                    isinstance(s.body[0].value.func, ast.Attribute) and s.body[0].value.func.attr == 'append' and not effects(s.iter):
                def toext(b=b, s=s):
                    c = s.body[0].value
                    k = b.index(s)
                    b[k] = ast.AugAssign(ast.Name(c.func.value.id, ast.Store()), ast.Add(), ast.ListComp(c.args[0], [ast.comprehension(s.target, s.iter, [], 0)]))
                if isinstance(s.body[0].value.func.value, ast.Name):
                    yield 'loop2comp', 'L%d' % line, toext
            # loops over enumerate / zip
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and getattr(s.iter.func, 'id', '') == 'enumerate' and isinstance(s.target, ast.Tuple) and len(s.iter.args) == 1 \
                    and isinstance(s.iter.args[0], (ast.Name, ast.Attribute)):
                def unenum(s=s):
                    l = s.iter.args[0]
                    i, x = s.target.elts
                    s.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [l], [])], [])
                    s.target = i
                    ld = ast.Name(i.id, ast.Load())
                    s.body.insert(0, ast.Assign([x], ast.Subscript(copy.deepcopy(l), ld, ast.Load())))
                yield 'enum2range', 'L%d' % line, unenum
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and getattr(s.iter.func, 'id', '') == 'zip' and isinstance(s.target, ast.Tuple) and len(s.target.elts) == len(s.iter.args):
                def zip2range(b=b, s=s):
                    k = b.index(s)
                    ls = []
                    for j, a in enumerate(s.iter.args):
                        ls.append('seq_h%d' % j)
                        b.insert(k, ast.Assign([ast.Name('seq_h%d' % j, ast.Store())], ast.Call(ast.Name('list', ast.Load()), [a], [])))
                        k += 1
                    s.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('min', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [ast.Name(l, ast.Load())], []) for l in ls], [])], [])
                    pre = [ast.Assign([t], ast.Subscript(ast.Name(l, ast.Load()), ast.Name('idx_h', ast.Load()), ast.Load())) for t, l in zip(s.target.elts, ls)]
                    s.target = ast.Name('idx_h', ast.Store())
                    s.body[:0] = pre
                if len(s.iter.args) > 1:
                    yield 'zip2range', 'L%d' % line, zip2range
            if isinstance(s, ast.For) and not s.orelse:
                def addenum(s=s):
                    s.target = ast.Tuple([ast.Name('count_h', ast.Store()), s.target], ast.Store())
                    s.iter = ast.Call(ast.Name('enumerate', ast.Load()), [s.iter], [])
                yield 'enumerate', 'L%d' % line, addenum

                def listify(s=s):
                    s.iter = ast.Call(ast.Name('list', ast.Load()), [s.iter], [])
                if not any(isinstance(x, (ast.Yield,)) for x in ast.walk(s)):
                    yield 'listify', 'L%d' % line, listify
            # tuple assignment
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                    len(s.targets[0].elts) == len(s.value.elts) and not (names_in(s.targets[0]) & names_in(s.value)):
                def split(b=b, s=s):
                    k = b.index(s)
                    b[k:k + 1] = [ast.Assign([t], v) for t, v in zip(s.targets[0].elts, s.value.elts)]
                yield 'untuple', 'L%d' % line, split
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and not isinstance(s.value, ast.Tuple) and \
                    all(isinstance(t, ast.Name) for t in s.targets[0].elts):
                def byindex(b=b, s=s):
                    k = b.index(s)
                    b[k:k + 1] = [ast.Assign([ast.Name('res_h', ast.Store())], ast.Call(ast.Name('tuple', ast.Load()), [s.value], []))] + [
                        ast.Assign([t], ast.Subscript(ast.Name('res_h', ast.Load()), ast.Constant(j), ast.Load())) for j, t in enumerate(s.targets[0].elts)]
                yield 'byindex', 'L%d' % line, byindex
            # swap with next
            if isinstance(s, ast.Assign) and si + 1 < len(b) and isinstance(b[si + 1], ast.Assign):
                t = b[si + 1]
                if all(isinstance(x, ast.Name) or isinstance(x, ast.Tuple) and all(isinstance(y, ast.Name) for y in x.elts) for x in s.targets + t.targets):
                    w1 = set().union(*[names_in(x) for x in s.targets])
                    w2 = set().union(*[names_in(x) for x in t.targets])
                    if not (w1 & w2) and not (w1 & names_in(t.value)) and not (w2 & names_in(s.value)) and not (effects(s) and effects(t)) and not any(
                            isinstance(x, (ast.Yield, ast.Lambda)) for q in (s, t) for x in ast.walk(q)):
                        def swap(b=b, s=s, t=t):
                            i, j = b.index(s), b.index(t)
                            b[i], b[j] = b[j], b[i]
                        yield 'swap', 'L%d' % line, swap
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name) and \
                    isinstance(s.targets[0].slice, ast.Constant) and isinstance(s.targets[0].slice.value, str) and s.targets[0].value.id in ('kwargs', 'd', 'dims', 'out_kwargs', 'process_flash_kwargs', 'encoding', 'enc', 'gr_kwargs', 'ev_kwargs', 'fl_kwargs', 'meta'):
                def upd(b=b, s=s):
                    k = b.index(s)
                    t = s.targets[0]
                    b[k] = ast.Expr(ast.Call(ast.Attribute(ast.Name(t.value.id, ast.Load()), 'update', ast.Load()), [ast.Dict([t.slice], [s.value])], []))
                yield 'update', 'L%d' % line, upd
            # guard against a pointless log line and an assertion of a tautology
            def logline(b=b, s=s):
                b.insert(b.index(s), ast.parse('import logging as _lg\n_lg.getLogger(__name__).debug("here")').body[0])
                b.insert(b.index(s), ast.parse('_lg.getLogger(__name__).debug("here")').body[0])
            yield 'log', 'L%d' % line, logline

    # expression level
    for n in ast.walk(fn):
        if id(n) in doc:
            continue
        for f, v in ast.iter_fields(n):
            vs = v if isinstance(v, list) else [v]
            for i, c in enumerate(vs):
                if not isinstance(c, ast.expr) or id(c) in doc:
                    continue

                def put(new, n=n, f=f, i=i, l=isinstance(v, list)):
                    if l:
                        getattr(n, f)[i] = new
                    else:
                        setattr(n, f, new)
                ln = 'L%d %s' % (c.lineno, ast.unparse(c)[:50])
                if isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in FLIP:
                    yield 'flip', ln, lambda c=c, put=put: put(ast.Compare(c.comparators[0], [FLIP[type(c.ops[0])]()], [c.left]))
                if isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in (ast.Is, ast.IsNot, ast.In, ast.NotIn):
                    yield 'negate', ln, lambda c=c, put=put: put(ast.UnaryOp(ast.Not(), ast.Compare(c.left, [NEG[type(c.ops[0])]()], c.comparators)))
                if isinstance(c, ast.BinOp) and isinstance(c.op, (ast.Mult, ast.BitAnd, ast.BitOr)):
                    yield 'commute', ln, lambda c=c, put=put: put(ast.BinOp(c.right, c.op, c.left))
                if isinstance(c, ast.BinOp) and isinstance(c.op, ast.Add) and not any(isinstance(x, (ast.Constant, ast.List, ast.Tuple, ast.JoinedStr)) and (not isinstance(x, ast.Constant) or isinstance(x.value, str)) for x in ast.walk(c)):
                    yield 'commute+', ln, lambda c=c, put=put: put(ast.BinOp(c.right, c.op, c.left))
                if isinstance(c, ast.BinOp) and isinstance(c.op, ast.Sub) and 'ids' not in ast.unparse(c):
                    yield 'addneg', ln, lambda c=c, put=put: put(ast.BinOp(ast.UnaryOp(ast.USub(), c.right), ast.Add(), c.left)) if False else put(ast.UnaryOp(ast.USub(), ast.BinOp(c.right, ast.Sub(), c.left)))
                if isinstance(c, ast.BinOp) and isinstance(c.op, ast.Div) and isinstance(c.right, ast.Constant) and c.right.value in (2, 2.0):
                    yield 'half', ln, lambda c=c, put=put: put(ast.BinOp(c.left, ast.Mult(), ast.Constant(0.5)))
                if isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Load) and c.attr in ('data', 'values') and not (isinstance(n, ast.Call) and f == 'func'):
                    yield 'data/values', ln, lambda c=c, put=put: put(ast.Attribute(c.value, {'data': 'values', 'values': 'data'}[c.attr], ast.Load()))
                if isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Load) and (c.attr.split('_')[0] in ('flash', 'group', 'event', 'lutevent') and '_' in c.attr) and not (isinstance(n, ast.Call) and f == 'func') \
                        and not (isinstance(c.value, ast.Name) and c.value.id == 'self') and ast.unparse(c.value).split('.')[-1] in ('dataset', 'flash_data', 'glm_data', 'flashes', 'ds', 'flash_data_ds', 'events', 'groups', 'split_event_dataset'):
                    yield 'attr2item', ln, lambda c=c, put=put: put(ast.Subscript(c.value, ast.Constant(c.attr), ast.Load()))
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'dict' and not c.args and c.keywords and all(k.arg for k in c.keywords):
                    yield 'dict', ln, lambda c=c, put=put: put(ast.Dict([ast.Constant(k.arg) for k in c.keywords], [k.value for k in c.keywords]))
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == 'np' and c.func.attr in ('zeros', 'ones', 'empty', 'asarray', 'array'):
                    for k in c.keywords:
                        if k.arg == 'dtype' and isinstance(k.value, ast.Constant) and k.value.value in ('f8', 'float64', 'i4', 'int64', 'float32', 'f4', 'i8', 'u1', 'bool'):
                            new = {'f8': 'float64', 'i4': 'int32', 'i8': 'int64', 'f4': 'float32', 'u1': 'uint8', 'bool': 'bool_'}.get(k.value.value, k.value.value)
                            yield 'dtype', ln, lambda k=k, new=new: setattr(k, 'value', ast.Attribute(ast.Name('np', ast.Load()), new, ast.Load()))
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('sum', 'min', 'max', 'copy', 'flatten', 'cumsum') and not c.args and not c.keywords and not (isinstance(c.func.value, ast.Name) and c.func.value.id in ('np', 'kwargs', 'process_flash_kwargs', 'out_kwargs', 'self')) and c.func.attr in ('min', 'max', 'sum'):
                    yield 'npfunc', ln, lambda c=c, put=put: put(ast.Call(ast.Attribute(ast.Name('np', ast.Load()), c.func.attr, ast.Load()), [c.func.value], []))
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'format' and isinstance(c.func.value, ast.Constant) and not any(isinstance(a, ast.Starred) for a in c.args) and not c.keywords:
                    js = to_fstring(c.func.value.value, c.args)
                    if js is not None:
                        yield 'fstring', ln, lambda js=js, put=put: put(js)
                if isinstance(c, ast.BoolOp):
                    yield 'boolswap', ln, lambda c=c: c.values.reverse() if False else None
                if isinstance(c, ast.Constant) and isinstance(c.value, (int, float)) and not isinstance(c.value, bool) and abs(c.value) > 2 and not isinstance(n, ast.FormattedValue):
                    def const(c=c, put=put):
                        tree.body.insert(tree.body.index(top_of(tree, fn)), ast.Assign([ast.Name('CONST_H', ast.Store())], ast.Constant(c.value)))
                        put(ast.Name('CONST_H', ast.Load()))
                    yield 'const', ln, const
                if isinstance(c, ast.Constant) and isinstance(c.value, str) and not isinstance(n, (ast.FormattedValue, ast.JoinedStr)) and len(c.value) > 1:
                    def sconst(c=c, put=put):
                        tree.body.insert(tree.body.index(top_of(tree, fn)), ast.Assign([ast.Name('CONST_H', ast.Store())], ast.Constant(c.value)))
                        put(ast.Name('CONST_H', ast.Load()))
                    yield 'sconst', ln, sconst
                if isinstance(c, ast.ListComp) and isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == 'len'):
                    pass
                if isinstance(c, ast.Lambda) and isinstance(n, ast.Call):
                    pass
                if isinstance(c, ast.IfExp) and isinstance(n, ast.Assign):
                    pass


def top_of(tree, fn):
    for t in tree.body:
        if any(x is fn for x in ast.walk(t)):
            return t


def to_fstring(text, args):
    import string
    vals = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(text):
            if lit:
                vals.append(ast.Constant(lit))
            if field is None:
                continue
            if conv or '{' in (spec or ''):
                return None
            if field == '':
                k = auto
                auto += 1
            elif field.isdigit():
                k = int(field)
            else:
                return None
            vals.append(ast.FormattedValue(copy.deepcopy(args[k]), -1, ast.JoinedStr([ast.Constant(spec)]) if spec else None))
    except Exception:
        return None
    return ast.JoinedStr(vals)


def variants(path, quals, only=None, kinds=None):
    src = open(path, encoding='utf8').read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    for q, fn in M.funcs(tree):
        if q not in quals or (only and not any(x in q or x in path for x in only)):
            continue
        n = len(list(rewrites(tree, fn, q)))
        seen = {base}
        # each variant is made on a fresh copy
        ks = [(k, d) for k, d, _ in rewrites(tree, fn, q)]
        for j, (k, d) in enumerate(ks):
            if kinds and k not in kinds:
                continue
            t2 = copy.deepcopy(tree)
            f2 = dict(M.funcs(t2))[q]
            rs = list(rewrites(t2, f2, q))
            try:
                rs[j][2]()
                ast.fix_missing_locations(t2)
                text = ast.unparse(t2)
                compile(text, path, 'exec')
            except Exception as e:
                continue
            if text in seen:
                continue
            seen.add(text)
            yield q, k + ' ' + d, text


def work(job):
    path, q, desc, text, names = job
    r = M._run(job)
    return r


def main(argv):
    only = [a for a in argv if '=' not in a]
    kinds = [a.split('=')[1].split(',') for a in argv if a.startswith('kind=')]
    kinds = kinds[0] if kinds else None
    skip = [a.split('=')[1].split(',') for a in argv if a.startswith('skip=')]
    tab = M.table()
    quals = {}
    for n, fs in tab.items():
        for p, q in fs:
            quals.setdefault(p, set()).add(q)
    js = []
    for p in sorted(quals):
        for q, d, text in variants(p, quals[p], only, kinds):
            if skip and d.split()[0] in skip[0]:
                continue
            js.append((p, q, d, text, M.obs_touching(p, q, tab)))
    print(len(js), 'variants', flush=True)
    tot = {}
    with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=50) as pool:
        for q, d, st, a, b in pool.imap(work, js, 1):
            k = d.split()[0]
            tot.setdefault(k, {}).setdefault(st, 0)
            tot[k][st] += 1
            if st != 'survived':
                print('%-9s %-40s %s   %s/%s' % ({'caught': 'ALARM', 'undecided': 'undecided'}.get(st, st), q, d, a, b), flush=True)
    for k in sorted(tot):
        print(k, tot[k])


if __name__ == '__main__':
    main(sys.argv[1:])
