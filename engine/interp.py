"""Abstract interpreter over the Python AST.

Every expression of the analysed source is mapped to a value-number term
(terms.py); conditionals become joins, loops become summarised folds.  No code
of the analysed repository is imported or executed.
"""
import ast
import os
from .terms import *
from . import terms as tm
from .values import *


class Unsupported(Exception):
    pass


class Exit(object):
    __slots__ = ('kind', 'cond', 'value', 'state')

    def __init__(self, kind, cond, value, state):
        self.kind = kind
        self.cond = cond
        self.value = value
        self.state = state


MAXDEPTH = 40
BUILTIN_NAMES = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)

EXTALIAS = [('numpy', 'np'), ('pandas', 'pd'), ('xarray', 'xr')]


def extpath(p):
    for a, b in EXTALIAS:
        if p == a or p.startswith(a + '.'):
            return b + p[len(a):]
    return p


LOGNAMES = {'debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log'}


class Module(object):
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.fid = None


def fold_names(tree):
    """`t = d[k]` directly before `t.append(x)`, t used nowhere else: read as `d[k].append(x)`"""
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        uses = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name):
                uses.setdefault(n.id, [0, 0])[isinstance(n.ctx, ast.Load)] += 1
        for blk in ast.walk(fn):
            for field in ('body', 'orelse', 'finalbody'):
                ss = getattr(blk, field, None)
                if not isinstance(ss, list):
                    continue
                i = 0
                while i + 1 < len(ss):
                    a, b = ss[i], ss[i + 1]
                    if (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name)
                            and isinstance(a.value, ast.Subscript) and isinstance(b, ast.Expr)
                            and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute)
                            and b.value.func.attr in ('append', 'extend') and isinstance(b.value.func.value, ast.Name)
                            and b.value.func.value.id == a.targets[0].id
                            and uses.get(a.targets[0].id) == [1, 1]):
                        b.value.func.value = a.value
                        del ss[i]
                        continue
                    i += 1
    return tree


# path -> source text analysed in place of the file (sensitivity runs)
OVERLAY = {}
PARSED = {}


NAMES = {}


def words(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute):
            out.add(n.attr)
        if isinstance(n, ast.ClassDef):
            for b in n.body:
                if isinstance(b, ast.FunctionDef):
                    out.add(b.name)
                elif isinstance(b, ast.Assign):
                    out.update(t.id for t in b.targets if isinstance(t, ast.Name))
    return out


def stores(tree):
    return {n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}


def strings(tree):
    return {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}


def set_segs(segs):
    """what a loop over a set sees: each value once"""
    if len(segs) == 1 and type(segs[0]) is T and segs[0].op == 'spread' and segs[0].args[0].op not in tm.SETS + ('range', 'keys', 'np.unique'):
        return (mk('spread', app('np.unique', segs[0].args[0])),)
    return segs


class Interp(object):
    def __init__(self, roots, budget=400000):
        self.roots = roots              # package name -> directory
        self.modules = {}
        self.sites = {}
        self.record_sites = True
        self.cur = None                 # (file, line)
        self.curfn = None
        self.depth = 0
        self.stack = []
        self.nextid = [0]
        self.steps = 0
        self.budget = budget
        self.opaque = set()
        self.pending = []
        self.frames = {}
        self.notes = []
        self.state0 = State()
        self.func_index = {}
        self.refs = {}                  # path -> FuncVal replacing the repo function
        self.userefs = False
        self.loopdepth = 0
        self.touched = set()
        self.made = {}
        self.nums = set()
        self.extra_builtins = {}
        self.observed = []
        self.retkinds = {}
        self.sinks = set()
        self.evalstack = []
        self.localfns = {}
        self.stream = None
        self.run_coro = False
        self.frame_node = {}
        self.noleak = None
        self.names_ = {}
        from . import models
        self.M = models
        models.install(self)

    # ------------------------------------------------------------ modules
    def fresh(self):
        self.nextid[0] += 1
        return self.nextid[0]

    def load_tree(self, pkg, rootdir, skip=()):
        for d, subs, files in sorted(os.walk(rootdir)):
            subs.sort()
            rel = os.path.relpath(d, rootdir)
            parts = [] if rel == '.' else rel.split(os.sep)
            if any(p in skip for p in parts):
                continue
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                name = '.'.join([pkg] + parts + ([] if f == '__init__.py' else [f[:-3]]))
                path = os.path.join(d, f)
                self.add_module(name, path)

    def add_module(self, name, path):
        src = OVERLAY.get(path)
        if src is None:
            src = open(path, encoding='utf8').read()
        key = (path, src)
        if key not in PARSED:
            PARSED[key] = fold_names(ast.parse(src, path))
        tree = PARSED[key]
        m = Module(name, path, tree, src)
        self.modules[name] = m
        return m

    def names_in(self, what, repo=True):
        key = (what, repo)
        if key not in self.names_:
            r = self.names_[key] = set()
            for k, m in self.modules.items():
                if k.startswith('glmtools') == repo:
                    if (what, m.tree) not in NAMES:
                        NAMES[what, m.tree] = what(m.tree)
                    r |= NAMES[what, m.tree]
        return self.names_[key]

    def repo_names(self):
        """attribute names the analysed source uses"""
        return self.names_in(words)

    def lost(self, cls, name):
        """whether a rule reads an attribute under a name the source no longer knows"""
        return self.from_rule() and name not in self.repo_names() and (not cls.ext_bases() or name in self.names_in(stores, False))

    def from_rule(self):
        """the rule itself is at work, not the analysed source"""
        return self.cur is not None and os.sep + 'spec' + os.sep in self.cur[0]

    def exec_modules(self):
        for name in list(self.modules):
            self.ensure(name)

    def ensure(self, name):
        m = self.modules[name]
        if m.fid is not None:
            return m
        m.fid = self.fresh()
        self.frames[m.fid] = (None, m)
        st = self.state0
        st.envs[m.fid] = {'__name__': S(name), '__file__': S(name)}
        save = (self.cur, self.steps)
        for s in m.tree.body:
            self.steps = 0
            try:
                r = self.exec_block([s], st, m, m.fid)
                if r[1] is not None:
                    if r[1] is not st:
                        st.heap, st.envs, st.assume = r[1].heap, r[1].envs, r[1].assume
                self.pending = []
            except (Unsupported, Budget) as e:
                self.notes.append('module %s line %d: %s' % (name, s.lineno, e))
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        st.envs[m.fid][n.id] = tm.top('module value')
        self.cur, self.steps = save
        return m

    def find(self, path):
        """'glmtools.io.glm:GLMDataset.subset_flashes' -> value or None"""
        if self.userefs and path in self.refs:
            return self.refs[path]
        mod, _, q = path.partition(':')
        v = self.find_in(mod, q)
        if v is None:
            parts = q.split('.')
            for name in self.modules:
                if name.startswith('glmtools'):
                    v = self.find_in(name, q)
                    if v is not None:
                        break
            if v is None and len(parts) == 2:
                # method moved to a module-level function or another class
                pass
        return v

    def find_in(self, mod, q):
        if mod not in self.modules:
            return None
        self.ensure(mod)
        env = self.state0.envs[self.modules[mod].fid]
        parts = q.split('.')
        v = env.get(parts[0])
        if v is None or isinstance(v, (T, Ext)):
            if len(parts) == 1 and isinstance(v, T):
                return v
            return None
        for p in parts[1:]:
            if isinstance(v, ClassVal):
                v, _ = v.lookup(p)
            else:
                return None
            if v is None:
                return None
        return v

    # ------------------------------------------------------------ heap
    def alloc(self, st, obj):
        oid = self.fresh()
        obj.born = oid
        st.heap[oid] = obj
        return Ref(oid)

    def newlist(self, st, segs=()):
        return self.alloc(st, Obj('list', segs=tuple(segs)))

    def newdict(self, st, items=None, base=None):
        return self.alloc(st, Obj('dict', items=dict(items or {}), base=base))

    def newop(self, st, content, arr=False, eff=False, ch=None):
        return self.alloc(st, Obj('op', content=content, arr=arr, eff=eff, ch=dict(ch or {})))

    def box(self, v, st):
        """give an opaque term an identity when it is bound to a name"""
        if type(v) is T and v.op not in ('n', 'c', 'b', 'tuple', 'func', 'cls', 'ext', 'undef', 'str', 'slice', 'dt', 'lam', 'top', 'ite', 'len', 'dimsize', 'sym', 'fmt') and not v.isb:
            if v.op == 'list':
                return self.newlist(st, v.args)
            if v.op == 'poly' or v.op in SCALAR_OPS:
                return v
            return self.newop(st, v, arr=v.op in ARRAY_OPS)
        return v

    def freeze(self, v, st, seen=None):
        if type(v) is T:
            return v
        if seen is None:
            seen = ()
        if type(v) is Ref:
            o = st.heap.get(v.oid)
            if o is None:
                return tm.top('dangling')
            if v.oid in seen:
                return mk('cycle', len(seen) - seen.index(v.oid))
            if len(seen) > 12:
                return tm.top('deep')
            seen = seen + (v.oid,)
            k = o.kind
            if k == 'list':
                segs = self.fsegs(o.segs, st, seen)
                if len(segs) == 1 and segs[0].op == 'spread':
                    return segs[0].args[0]
                return mk('list', *segs)
            if k == 'set':
                return mkset(self.fsegs(o.segs, st, seen))
            if k == 'dict':
                items = []
                for kk, (p, vv) in o.items.items():
                    t = self.freeze(vv, st, seen)
                    if p is not TRUE:
                        t = ite(p, t, ABSENT)
                    items.append((kk, t))
                items.sort(key=lambda kv: kv[0].id)
                if o.base is None:
                    r = mk('dict', *items)
                elif not items:
                    r = o.base
                else:
                    r = mk('upd', o.base, tuple((('item', a), b) for a, b in items))
                c = st.heap.get(('coll', v.oid))
                if c is not None:
                    r = app('collect', r, mk('list', *self.fsegs(c.segs, st)))
                return r
            if k == 'inst':
                # an attribute not set yet and one set to None beforehand say the same
                items = [(n, noundef(self.freeze(x, st, seen))) for n, x in sorted(o.ch.items())]
                items = [(n, x) for n, x in items if x is not NONE]
                if o.base is not None or o.cls.ext_bases():
                    # attributes an outside base class set are part of what it made
                    b = o.base if o.base is not None else mk('self', o.cls.qual)
                    items = [(n, x) for n, x in items if x is not self.M.attr_term(b, n)]
                if o.base is not None:
                    return mk('inst', o.cls.qual, tuple(items), o.base)
                return mk('inst', o.cls.qual, tuple(items))
            if k == 'op':
                items = []
                for kk, vv in o.ch.items():
                    t = self.freeze(vv, st, seen)
                    if t is not self.default_child(o.content, kk):
                        items.append((kk, t))
                if not items:
                    return o.content
                items.sort(key=lambda kv: (kv[0][0], kv[0][1].id if type(kv[0][1]) is T else 0, str(kv[0][1]) if type(kv[0][1]) is not T else ''))
                return mk('upd', o.content, tuple(items))
            if k == 'view':
                return self.viewterm(self.freeze(o.parent, st, seen), o.key)
            if k == 'coro':
                return mk('coro', o.content)
            return tm.top('obj ' + k)
        if type(v) is Tup:
            segs = self.fsegs(v.segs, st, seen)
            if len(segs) == 1 and segs[0].op == 'spread':
                return segs[0].args[0]
            return mk('tuple', *segs)
        if type(v) is IteV:
            return ite(v.c, self.freeze(v.a, st, seen), self.freeze(v.b, st, seen))
        if isinstance(v, FuncVal):
            return self.freeze_func(v, st)
        if isinstance(v, ClassVal):
            return mk('cls', v.qual)
        if isinstance(v, Ext):
            return mk('ext', v.path)
        if isinstance(v, ModuleVal):
            return mk('module', v.name)
        if isinstance(v, Bound):
            return mk('bound', self.freeze(v.selfv, st, seen), self.freeze(v.func, st, seen))
        if isinstance(v, Meth):
            return mk('attr', self.freeze(v.recv, st, seen), v.name)
        if isinstance(v, Partial):
            args = tuple(self.freeze(a, st, seen) for a in v.args)
            kws = tuple((k, self.freeze(p_v[1], st, seen)) for k, p_v in sorted(v.kwargs.items()))
            return mk('partial', self.freeze(v.func, st, seen), args, kws)
        if isinstance(v, Builtin):
            return mk('ext', v.name)
        if isinstance(v, Super):
            return mk('super')
        return tm.top('value %r' % (v,))

    def freeze_func(self, v, st):
        if v.node is None:
            return mk('func', v.qual)
        if isinstance(v.node, ast.Lambda) or v.qual is None or '<local>' in (v.qual or ''):
            a = v.node.args
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            if v.kind == 'coro' or v.kind == 'gen':
                return mk('func', v.qual)
            key = id(v)
            if key in self.localfns.get('busy', ()):
                return mk('func', v.qual)
            self.localfns.setdefault('busy', set()).add(key)
            try:
                syms = [freshsym('a') for _ in names]
                s2 = st.clone()
                pend = self.pending
                self.pending = []
                nd = len(v.defaults)
                r = self.freeze(self.call(v, [s for s in syms], {}, s2), s2)
                self.pending = pend
            finally:
                self.localfns['busy'].discard(key)
            for s in reversed(syms):
                r = mk('lam', abstract(r, s))
            return r
        return mk('func', v.qual)

    def fsegs(self, segs, st, seen=()):
        return norm_segs(tuple(self.freeze(x, st, seen) for x in segs))

    def default_child(self, content, kk):
        if kk[0] == 'item':
            return getitem(content, kk[1])
        return self.M.attr_term(content, kk[1])

    def viewterm(self, parent, key):
        if key == 'T':
            return app('transpose', parent)
        if key == 'flipud':
            return app('flipud', parent)
        return getitem(parent, key)

    def content(self, ref, st):
        return self.freeze(ref, st)

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if type(a) is T and type(b) is T:
            return ite(c, a, b)
        if type(a) is Ref and type(b) is Ref and a.oid == b.oid:
            return a
        if type(a) is Ext and type(b) is Ext and a == b:
            return a
        if type(a) is Tup and type(b) is Tup and len(a.segs) == len(b.segs) and plainsegs(a.segs) and plainsegs(b.segs):
            return Tup([self.merge_val(c, x, y) for x, y in zip(a.segs, b.segs)])
        if isinstance(a, FuncVal) and isinstance(b, FuncVal) and a.node is b.node and a.fid == b.fid:
            return a
        return self.itev(c, a, b)

    def itev(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if type(a) is IteV and a.c is c:
            a = a.a
        if type(b) is IteV and b.c is c:
            b = b.b
        if type(a) is Ref and type(b) is Ref and a.oid == b.oid:
            return a
        return IteV(c, a, b)

    def merge(self, c, s1, s2):
        """state equal to s1 when c else s2"""
        if c is TRUE:
            return s1
        if c is FALSE:
            return s2
        out = State()
        for oid, o1 in s1.heap.items():
            o2 = s2.heap.get(oid)
            if o1 is o2 or o2 is None:
                out.heap[oid] = o1
            else:
                out.heap[oid] = self.merge_obj(c, o1, o2, s1, s2)
        for oid, o2 in s2.heap.items():
            if oid not in out.heap:
                if type(oid) is tuple:      # event log
                    out.heap[oid] = self.merge_obj(c, Obj('list'), o2, s1, s2)
                else:
                    out.heap[oid] = o2
        for oid, o1 in s1.heap.items():
            if type(oid) is tuple and oid not in s2.heap:
                out.heap[oid] = self.merge_obj(c, o1, Obj('list'), s1, s2)
        for fid in set(s1.envs) | set(s2.envs):
            e1, e2 = s1.envs.get(fid), s2.envs.get(fid)
            if e1 is None or e2 is None:
                out.envs[fid] = dict(e1 or e2)
                continue
            d = {}
            for k, v1 in e1.items():
                v2 = e2.get(k, UNDEF)
                d[k] = v1 if v1 is v2 else self.merge_val(c, v1, v2)
            for k, v2 in e2.items():
                if k not in e1:
                    d[k] = self.merge_val(c, UNDEF, v2)
            out.envs[fid] = d
        out.assume = {a: v for a, v in s1.assume.items() if s2.assume.get(a) is v}
        return out

    def merge_obj(self, c, o1, o2, s1, s2):
        if o1.kind != o2.kind:
            t1 = self.objterm(o1, s1)
            t2 = self.objterm(o2, s2)
            return Obj('op', content=ite(c, t1, t2), ch={})
        k = o1.kind
        if k in ('list', 'set'):
            return o1.rep(segs=self.merge_segs(c, o1.segs, o2.segs, s1, s2))
        if k == 'dict':
            items = {}
            for kk in list(o1.items) + [x for x in o2.items if x not in o1.items]:
                a, b = o1.items.get(kk), o2.items.get(kk)
                if a is None:
                    if o1.base is not None:
                        a = (app('in', kk, o1.base), getitem(o1.base, kk))
                    else:
                        a = (FALSE, b[1])
                if b is None:
                    if o2.base is not None:
                        b = (app('in', kk, o2.base), getitem(o2.base, kk))
                    else:
                        b = (FALSE, a[1])
                p = ite(c, a[0], b[0])
                v = a[1] if b[0] is FALSE else (b[1] if a[0] is FALSE else self.merge_val(c, a[1], b[1]))
                items[kk] = (p, v)
            base = o1.base
            if o1.base is not o2.base:
                base = ite(c, o1.base if o1.base is not None else mk('dict'), o2.base if o2.base is not None else mk('dict'))
            return o1.rep(items=items, base=base)
        if k == 'inst':
            ch = {}
            for n in list(o1.ch) + [x for x in o2.ch if x not in o1.ch]:
                a, b = o1.ch.get(n, UNDEF), o2.ch.get(n, UNDEF)
                ch[n] = self.merge_val(c, a, b)
            return o1.rep(ch=ch)
        if k == 'op':
            content = ite(c, o1.content, o2.content)
            ch = {}
            for n in list(o1.ch) + [x for x in o2.ch if x not in o1.ch]:
                a, b = o1.ch.get(n), o2.ch.get(n)
                if a is None:
                    fb = self.freeze(b, s2)
                    if fb is self.default_child(o2.content, n):
                        if o1.content is o2.content:
                            ch[n] = b
                        continue
                    a = self.default_child(o1.content, n)
                if b is None:
                    fa = self.freeze(a, s1)
                    if fa is self.default_child(o1.content, n):
                        if o1.content is o2.content:
                            ch[n] = a
                        continue
                    b = self.default_child(o2.content, n)
                ch[n] = self.merge_val(c, a, b)
            return o1.rep(content=content, ch=ch)
        return o1

    def objterm(self, o, st):
        s = st.clone()
        s.heap[-1] = o
        return self.freeze(Ref(-1), s)

    def merge_segs(self, c, a, b, s1, s2):
        if a == b:
            return a
        if len(a) == len(b) and plainsegs(a) and plainsegs(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        n = 0
        while n < len(a) and n < len(b) and sameval(a[n], b[n]):
            n += 1
        ra = tuple(self.freeze(x, s1) for x in a[n:])
        rb = tuple(self.freeze(x, s2) for x in b[n:])
        return a[:n] + norm_segs(when(c, ra) + when(b_not(c), rb))

    # ------------------------------------------------------------ conditions
    def simp(self, t, st):
        if st.assume and type(t) is T and (t.op == 'ite' or t.isb):
            n = 0
            while t.op == 'ite' or (t.isb and t.op != 'b'):
                ats = atoms_of(t) if t.op == 'ite' else {t}
                hit = None
                for a in ats:
                    if a in st.assume:
                        hit = a
                        break
                if hit is None:
                    break
                t = restrict(t, hit, st.assume[hit])
                n += 1
                if n > 60:
                    break
        return t

    def assume(self, st, c, val):
        """record literals implied by c == val"""
        if c.op == 'b':
            return
        if c.op == 'ite':
            a, h, l = c.args
            if val:
                if l is FALSE:
                    st.assume[a] = True
                    self.assume(st, h, True)
                elif h is FALSE:
                    st.assume[a] = False
                    self.assume(st, l, True)
            else:
                if l is TRUE:
                    st.assume[a] = True
                    self.assume(st, h, False)
                elif h is TRUE:
                    st.assume[a] = False
                    self.assume(st, l, False)
            return
        if c.isb:
            st.assume[c] = val

    def truth(self, v, st):
        if type(v) is T:
            return self.simp(tm.truth(v), st)
        if type(v) is IteV:
            return self.simp(ite(v.c, self.truth(v.a, st), self.truth(v.b, st)), st)
        if type(v) is Ref:
            o = st.heap[v.oid]
            if o.kind in ('list', 'dict', 'set'):
                if o.kind == 'dict':
                    if o.base is None and all(p is TRUE for p, _ in o.items.values()):
                        return TRUE if o.items else FALSE
                    if any(p is TRUE for p, _ in o.items.values()):
                        return TRUE
                return self.simp(tm.truth(self.freeze(v, st)), st)
            if o.kind == 'inst':
                m, _ = o.cls.lookup('__len__')
                if m is None:
                    return TRUE
            return self.simp(tm.truth(self.freeze(v, st)), st)
        if type(v) is Tup:
            return tm.truth(self.freeze(v, st))
        return TRUE

    # ------------------------------------------------------------ statements
    def tick(self, node=None):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('step budget')

    def exec_block(self, stmts, st, mod, fid):
        """-> (cond of falling through, state or None, exits)"""
        fall = TRUE
        exits = []
        for s in stmts:
            self.tick()
            self.cur = (mod.path, getattr(s, 'lineno', 0))
            self.touched.add(self.cur)
            fc, st2, ex = self.exec_stmt(s, st, mod, fid)
            for e in ex:
                exits.append(Exit(e.kind, b_and(fall, e.cond), e.value, e.state))
            if st2 is None:
                return FALSE, None, exits
            fall = b_and(fall, fc)
            st = st2
        return fall, st, exits

    def drain(self, st):
        """turn raises found while evaluating expressions into exits"""
        if not self.pending:
            return TRUE, st, []
        ex = []
        fall = TRUE
        for cond, exc, s in self.pending:
            c = b_and(fall, cond)
            if c is FALSE:
                continue
            ex.append(Exit('raise', c, exc, s))
            fall = b_and(fall, b_not(cond))
        self.pending = []
        if fall is FALSE:
            return FALSE, None, ex
        for cond, in [(e.cond,) for e in ex]:
            self.assume(st, cond, False)
        return fall, st, ex

    def exec_stmt(self, s, st, mod, fid):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        save = self.pending
        self.pending = []
        try:
            try:
                fc, st2, ex = m(s, st, mod, fid)
            except Unsupported as e:
                if not isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign, ast.Return)) or str(e).startswith('LEAK'):
                    raise
                why = '%s at %s:%s' % (e, os.path.basename(mod.path), s.lineno)
                self.notes.append('not modelled: ' + why)
                fc, st2, ex = TRUE, st, []
                tt = tm.top(why)
                if isinstance(s, ast.Return):
                    fc, st2, ex = FALSE, None, [Exit('return', TRUE, tt, st)]
                else:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            st.envs[fid][n.id] = tt
                    for n in (s.targets if isinstance(s, ast.Assign) else []):
                        if isinstance(n, (ast.Attribute, ast.Subscript)):
                            raise
                    if isinstance(s, (ast.Expr, ast.AugAssign)):
                        raise
            if self.pending:
                f2, st3, ex2 = self.drain(st2 if st2 is not None else st)
                # raises happen before the statement's own exits
                out = list(ex2)
                for e in ex:
                    out.append(Exit(e.kind, b_and(f2, e.cond), e.value, e.state))
                ex = out
                fc = b_and(f2, fc)
                if st3 is None or st2 is None:
                    st2 = None
                if fc is FALSE:
                    st2 = None
        finally:
            self.pending = save
        return fc, st2, ex

    def s_Expr(self, s, st, mod, fid):
        if isinstance(s.value, ast.Constant):
            return TRUE, st, []
        self.ev(s.value, st, mod, fid)
        return TRUE, st, []

    def s_Pass(self, s, st, mod, fid):
        return TRUE, st, []

    def s_Global(self, s, st, mod, fid):
        st.envs[fid].setdefault('%global', set()).update(s.names) if False else None
        return TRUE, st, []

    s_Nonlocal = s_Global

    def s_Assign(self, s, st, mod, fid):
        v = self.ev(s.value, st, mod, fid)
        simple = isinstance(s.value, (ast.Name,))
        if not simple:
            v = self.box(v, st)
        for t in s.targets:
            self.assign(t, v, st, mod, fid)
        return TRUE, st, []

    def s_AnnAssign(self, s, st, mod, fid):
        if s.value is not None:
            v = self.box(self.ev(s.value, st, mod, fid), st)
            self.assign(s.target, v, st, mod, fid)
        return TRUE, st, []

    def s_AugAssign(self, s, st, mod, fid):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, st, mod, fid)
            rhs = self.ev(s.value, st, mod, fid)
            r = self.aug(cur, op, rhs, st)
            if r is not None:
                self.assign(t, self.box(r, st) if type(cur) is Ref and False else r, st, mod, fid)
            return TRUE, st, []
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, mod, fid)
            cur = self.getattr(base, t.attr, st)
            rhs = self.ev(s.value, st, mod, fid)
            r = self.aug(cur, op, rhs, st)
            if r is not None:
                self.setattr(base, t.attr, r, st)
            return TRUE, st, []
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, mod, fid)
            key = self.ev(t.slice, st, mod, fid)
            cur = self.getitem(base, key, st)
            rhs = self.ev(s.value, st, mod, fid)
            r = self.aug(cur, op, rhs, st)
            if r is not None:
                self.setitem(base, key, r, st)
            return TRUE, st, []
        raise Unsupported('augassign target')

    def aug(self, cur, op, rhs, st):
        """new value, or None when updated in place"""
        if type(cur) is Ref:
            o = st.heap[cur.oid]
            if o.kind == 'list' and op == 'Add':
                self.list_extend(cur, rhs, st)
                return None
            if (o.kind == 'op' and o.arr) or (o.kind == 'view' and self.is_arr(cur, st) and self.basic_range(o.key)):
                v = self.binop(op, cur, rhs, st)
                self.setcontent(cur, self.freeze(v, st), st)
                return None
        return self.binop(op, cur, rhs, st)

    def basic_range(self, key):
        if key in ('T', 'flipud'):
            return True
        if type(key) is T:
            if key.op in ('slice',) or key is ELL:
                return True
            if key.op == 'tuple' and any(k.op == 'slice' or k is ELL for k in key.args):
                return True
        return False

    def is_arr(self, v, st):
        if type(v) is Ref:
            o = st.heap[v.oid]
            if o.kind == 'op':
                return o.arr
            if o.kind == 'view':
                return self.is_arr(o.parent, st)
        return False

    def s_Return(self, s, st, mod, fid):
        v = NONE if s.value is None else self.ev(s.value, st, mod, fid)
        return FALSE, None, [Exit('return', TRUE, v, st)]

    def s_Raise(self, s, st, mod, fid):
        if s.exc is None:
            v = S('reraise')
        else:
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            v = self.ev(e, st, mod, fid)
            v = S(self.excname(v))
        return FALSE, None, [Exit('raise', TRUE, v, st)]

    def excname(self, v):
        if isinstance(v, Builtin):
            return v.name
        if isinstance(v, ClassVal):
            return v.name
        if isinstance(v, Ext):
            return v.path.split('.')[-1]
        return 'Exception'

    def s_Break(self, s, st, mod, fid):
        return FALSE, None, [Exit('break', TRUE, None, st)]

    def s_Continue(self, s, st, mod, fid):
        return FALSE, None, [Exit('continue', TRUE, None, st)]

    def s_Delete(self, s, st, mod, fid):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.envs[fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st, mod, fid)
                key = self.ev(t.slice, st, mod, fid)
                self.M.delitem(self, base, key, st)
            elif isinstance(t, ast.Attribute):
                pass
        return TRUE, st, []

    def s_Assert(self, s, st, mod, fid):
        c = self.truth(self.ev(s.test, st, mod, fid), st)
        if c is TRUE:
            return TRUE, st, []
        s2 = st.clone()
        self.assume(st, c, True)
        if c is FALSE:
            return FALSE, None, [Exit('raise', TRUE, S('AssertionError'), s2)]
        return c, st, [Exit('raise', b_not(c), S('AssertionError'), s2)]

    def s_Import(self, s, st, mod, fid):
        for a in s.names:
            if a.asname:
                v = self.import_path(a.name)
                st.envs[fid][a.asname] = v
            else:
                top = a.name.split('.')[0]
                v = self.import_path(top)
                st.envs[fid][top] = v
        return TRUE, st, []

    def import_path(self, name):
        if name in self.modules:
            self.ensure(name)
            return ModuleVal(name)
        if any(m.startswith(name + '.') for m in self.modules):
            return ModuleVal(name)
        return Ext(extpath(name))

    def s_ImportFrom(self, s, st, mod, fid):
        base = s.module or ''
        if s.level:
            parts = mod.name.split('.')
            if not mod.path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == '*':
                if base in self.modules:
                    m2 = self.ensure(base)
                    for k, v in self.state0.envs[m2.fid].items():
                        if not k.startswith('_'):
                            st.envs[fid][k] = v
                continue
            name = a.asname or a.name
            if base in self.modules:
                m2 = self.ensure(base)
                env = self.state0.envs[m2.fid]
                if a.name in env:
                    st.envs[fid][name] = env[a.name]
                    continue
                if base + '.' + a.name in self.modules:
                    self.ensure(base + '.' + a.name)
                    st.envs[fid][name] = ModuleVal(base + '.' + a.name)
                    continue
                st.envs[fid][name] = Ext(base + '.' + a.name)
                continue
            if base + '.' + a.name in self.modules:
                self.ensure(base + '.' + a.name)
                st.envs[fid][name] = ModuleVal(base + '.' + a.name)
                continue
            st.envs[fid][name] = self.M.ext_value(self, Ext(extpath(base + '.' + a.name)))
        return TRUE, st, []

    def s_FunctionDef(self, s, st, mod, fid):
        f = self.make_func(s, st, mod, fid, None)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st, mod, fid)
        st.envs[fid][s.name] = v
        return TRUE, st, []

    def decorate(self, d, f, st, mod, fid):
        name = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)
        if name == 'staticmethod':
            f.kind = 'static'
            return f
        if name == 'classmethod':
            f.kind = 'class'
            return f
        if name == 'property':
            f.kind = 'property'
            return f
        dv = None
        try:
            dv = self.ev(d, st, mod, fid)
        except Unsupported:
            pass
        if isinstance(dv, Builtin) and dv.fn is not None:
            return dv.fn(self, st, [f], {})
        if isinstance(dv, FuncVal) and dv.name == 'coroutine':
            return f
        if isinstance(dv, FuncVal):
            return self.call(dv, [f], {}, st)
        return f

    def make_func(self, s, st, mod, fid, cls, qualprefix=''):
        d = [self.ev(x, st, mod, fid) for x in s.args.defaults]
        kd = {}
        for a, x in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if x is not None:
                kd[a.arg] = self.ev(x, st, mod, fid)
        name = getattr(s, 'name', '<lambda>')
        local = fid != mod.fid and cls is None
        if cls is not None:
            qual = '%s:%s.%s' % (mod.name, cls, name)
        elif local:
            qual = '%s:<local>.%s' % (mod.name, name)
        else:
            qual = '%s:%s' % (mod.name, name)
        f = FuncVal(s, mod, fid, cls, name, qual, d, kd)
        if not isinstance(s, ast.Lambda):
            f.kind = func_kind(s)
        return f

    def s_ClassDef(self, s, st, mod, fid):
        bases = []
        for b in s.bases:
            bases.append(self.ev(b, st, mod, fid))
        bases = [b for b in bases if not (isinstance(b, Builtin) and b.name == 'object')]
        cf = self.fresh()
        self.frames[cf] = (fid, mod)
        st.envs[cf] = {}
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                f = self.make_func(x, st, mod, fid, s.name)
                v = f
                for d in reversed(x.decorator_list):
                    v = self.decorate(d, v, st, mod, fid)
                st.envs[cf][x.name] = v
            else:
                self.exec_block([x], st, mod, cf)
        ns = st.envs.pop(cf)
        c = ClassVal(s.name, mod, bases, ns, '%s:%s' % (mod.name, s.name))
        for v in ns.values():
            if isinstance(v, FuncVal):
                v.ownercls = c
        st.envs[fid][s.name] = c
        return TRUE, st, []

    def s_If(self, s, st, mod, fid):
        if isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == '__name__':
            return TRUE, st, []
        c = self.truth(self.ev(s.test, st, mod, fid), st)
        if c.op == 'top':
            c = mk('truth', c)
        if c is TRUE:
            return self.exec_block(s.body, st, mod, fid)
        if c is FALSE:
            return self.exec_block(s.orelse, st, mod, fid)
        s1 = st.clone()
        s2 = st.clone()
        self.assume(s1, c, True)
        self.assume(s2, c, False)
        f1, r1, e1 = self.exec_block(s.body, s1, mod, fid)
        f2, r2, e2 = self.exec_block(s.orelse, s2, mod, fid)
        ex = [Exit(e.kind, b_and(c, e.cond), e.value, e.state) for e in e1]
        nc = b_not(c)
        ex += [Exit(e.kind, b_and(nc, e.cond), e.value, e.state) for e in e2]
        if r1 is None and r2 is None:
            return FALSE, None, ex
        if r1 is None:
            return b_and(nc, f2), r2, ex
        if r2 is None:
            return b_and(c, f1), r1, ex
        return ite(c, f1, f2), self.merge(c, r1, r2), ex

    def s_With(self, s, st, mod, fid):
        for it in s.items:
            v = self.ev(it.context_expr, st, mod, fid)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.box(v, st), st, mod, fid)
        return self.exec_block(s.body, st, mod, fid)

    def s_Try(self, s, st, mod, fid):
        fall, r, ex = self.exec_block(s.body, st, mod, fid)
        out = []
        states = []
        if r is not None:
            f2, r2, e2 = self.exec_block(s.orelse, r, mod, fid) if s.orelse else (TRUE, r, [])
            for e in e2:
                out.append(Exit(e.kind, b_and(fall, e.cond), e.value, e.state))
            if r2 is not None:
                states.append((b_and(fall, f2), r2))
        for e in ex:
            if e.kind != 'raise':
                out.append(e)
                continue
            h = self.match_handler(s.handlers, e.value, st, mod, fid)
            if h is None:
                out.append(e)
                continue
            if h.name:
                e.state.envs[fid][h.name] = mk('exc', e.value)
            hf, hr, he = self.exec_block(h.body, e.state, mod, fid)
            for x in he:
                out.append(Exit(x.kind, b_and(e.cond, x.cond), x.value, x.state))
            if hr is not None:
                states.append((b_and(e.cond, hf), hr))
        if s.finalbody:
            if states:
                states = [(c, self.exec_block(s.finalbody, x, mod, fid)[1]) for c, x in states]
            for e in out:
                r3 = self.exec_block(s.finalbody, e.state, mod, fid)
                if r3[1] is not None:
                    e.state = r3[1]
        if not states:
            return FALSE, None, out
        fc, cur = states[0]
        for c, x in states[1:]:
            cur = self.merge(c, x, cur)
            fc = b_or(c, fc)
        return fc, cur, out

    def match_handler(self, handlers, exc, st, mod, fid):
        name = cstr(exc) if type(exc) is T else None
        for h in handlers:
            if h.type is None:
                return h
            names = []
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                names.append(t.id if isinstance(t, ast.Name) else getattr(t, 'attr', ''))
            if name in names:
                return h
            if name != 'GeneratorExit' and ('Exception' in names or 'BaseException' in names):
                return h
            if name in ('KeyError', 'IndexError') and 'LookupError' in names:
                return h
        return None

    # ------------------------------------------------------------ loops
    def s_For(self, s, st, mod, fid):
        it = self.ev(s.iter, st, mod, fid)
        segs = self.iter_segs(it, st)
        fall, st2, exits = self.loop_segs(segs, s, st, mod, fid)
        if s.orelse:
            if st2 is not None:
                # else-branch runs when no break happened
                brk = [e for e in exits if e.kind == '%broke']
                f3, r3, e3 = self.exec_block(s.orelse, st2, mod, fid)
                exits += [Exit(e.kind, b_and(fall, e.cond), e.value, e.state) for e in e3]
                fall, st2 = b_and(fall, f3), r3
        res = []
        for e in exits:
            if e.kind == '%broke':
                if st2 is None:
                    fall, st2 = e.cond, e.state
                else:
                    st2 = self.merge(e.cond, e.state, st2)
                    fall = b_or(fall, e.cond)
            else:
                res.append(e)
        return fall, st2, res

    def iter_segs(self, v, st):
        """sequence of segments: plain values, or T star/when/spread"""
        if type(v) is T and v.op == 'ite':
            return when(v.args[0], tuple(self.iter_segs(v.args[1], st))) + when(b_not(v.args[0]), tuple(self.iter_segs(v.args[2], st)))
        if type(v) is IteV:
            a = self.iter_segs(v.a, st)
            b = self.iter_segs(v.b, st)
            if plainsegs(a) and plainsegs(b) and len(a) == len(b):
                return tuple(self.merge_val(v.c, x, y) for x, y in zip(a, b))
            return tuple([('when', v.c, a), ('when', b_not(v.c), b)])
        if type(v) is Tup:
            return v.segs
        if type(v) is Ref:
            self.settle(v, st)
            o = st.heap[v.oid]
            if o.kind == 'set':
                return set_segs(self.fsegs(o.segs, st) if any(type(g) is not T for g in o.segs) and plainsegs(o.segs) else o.segs)
            if o.kind == 'list':
                return o.segs
            if o.kind == 'dict':
                if o.base is None:
                    out = []
                    for k, (p, x) in o.items.items():
                        out.extend(when(p, (k,)))
                    return tuple(out)
                return (mk('spread', app('keys', self.freeze(v, st))),)
            if o.kind == 'inst':
                m, _ = o.cls.lookup('__iter__')
                if m is not None:
                    return self.iter_segs(self.call(Bound(m, v), [], {}, st), st)
            if o.kind == 'op' or o.kind == 'view':
                t = self.freeze(v, st)
                if t.op in ('list', 'tuple', 'ite', 'range', 'set'):
                    return self.iter_segs(t, st)
                if t.op == 'getitem' and t.args[0].op == 'm.groupby' and cstr(t.args[1]) == 'groups' and len(t.args[0].args) == 1:
                    # the keys of a grouping are its different values in order
                    return (mk('spread', app('np.unique', t.args[0].args[0])),)
                return (('spreadref', v, t),)
        if type(v) is T:
            if v.op == 'set':
                return set_segs(v.args)
            if v.op in ('list', 'tuple'):
                return v.args
            if v.op == 'range':
                return spread_segs(v)
            if v.op == 'dict':
                return tuple(k for k, x in v.args)
            if v.op == 'c' and v.args[0] == 'str':
                return tuple(S(x) for x in v.args[1])
            if v is NONE:
                return ()
            return tm.spread_segs(v) if v.op == 'repeat' else (mk('spread', v),)
        raise Unsupported('iterate %r' % (v,))

    def loop_segs(self, segs, s, st, mod, fid):
        exits = []
        fall = TRUE
        for g in segs:
            self.tick()
            if st is None:
                break
            if type(g) is tuple and g[0] == 'when':
                fc, st2, ex = self.cond_run(g[1], st, lambda z, gg=g: self.loop_segs(gg[2], s, z, mod, fid))
            elif type(g) is tuple and g[0] == 'spreadref':
                fc, st2, ex = self.sym_loop(length(g[2]), lambda i, z, gg=g: self.getitem(gg[1], i, z), s, st, mod, fid)
            elif type(g) is T and g.op == 'when':
                fc, st2, ex = self.cond_run(g.args[0], st, lambda z, gg=g: self.loop_segs(gg.args[1:], s, z, mod, fid))
            elif type(g) is T and g.op == 'spread':
                x = g.args[0]
                fc, st2, ex = self.sym_loop(length(x), lambda i, z, xx=x: getitem(xx, i), s, st, mod, fid)
            elif type(g) is T and g.op == 'star':
                lam = g.args[1]
                fc, st2, ex = self.sym_loop(g.args[0], None, s, st, mod, fid, lam=lam)
            else:
                fc, st2, ex = self.loop_body(g, s, st, mod, fid)
            for e in ex:
                exits.append(Exit(e.kind, b_and(fall, e.cond), e.value, e.state))
            fall = b_and(fall, fc)
            st = st2
        return (fall if st is not None else FALSE), st, exits

    def cond_run(self, c, st, f):
        c = self.simp(c, st)
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return TRUE, st, []
        s1, s2 = st.clone(), st.clone()
        self.assume(s1, c, True)
        self.assume(s2, c, False)
        f1, r1, e1 = f(s1)
        ex = [Exit(e.kind, b_and(c, e.cond), e.value, e.state) for e in e1]
        if r1 is None:
            return b_not(c), s2, ex
        return ite(c, f1, TRUE), self.merge(c, r1, s2), ex

    def loop_body(self, v, s, st, mod, fid):
        """one iteration; break -> '%broke' exit, continue merged into fall"""
        save = self.pending
        self.pending = []
        self.assign(s.target, v, st, mod, fid)
        pre = self.pending
        self.pending = save
        self.pending.extend(pre)
        fall, r, ex = self.exec_block(s.body, st, mod, fid)
        out = []
        for e in ex:
            if e.kind == 'break':
                out.append(Exit('%broke', e.cond, None, e.state))
            elif e.kind == 'continue':
                if r is None:
                    fall, r = e.cond, e.state
                else:
                    r = self.merge(e.cond, e.state, r)
                    fall = b_or(fall, e.cond)
            else:
                out.append(e)
        return (fall if r is not None else FALSE), r, out

    # symbolic loop ------------------------------------------------------
    def sym_loop(self, n, elem, s, st, mod, fid, lam=None, body=None):
        """summarise: for i in range(n): target = elem(i); body"""
        n = self.simp(n, st)
        if n.op == 'ite':
            # split on the condition deciding how many iterations there are
            c = n.args[0]
            h, l = n.args[1], n.args[2]
            s1, s2 = st.clone(), st.clone()
            self.assume(s1, c, True)
            self.assume(s2, c, False)
            f1, r1, e1 = self.sym_loop(h, elem, s, s1, mod, fid, lam, body)
            f2, r2, e2 = self.sym_loop(l, elem, s, s2, mod, fid, lam, body)
            ex = [Exit(e.kind, b_and(c, e.cond), e.value, e.state) for e in e1]
            ex += [Exit(e.kind, b_and(b_not(c), e.cond), e.value, e.state) for e in e2]
            if r1 is None and r2 is None:
                return FALSE, None, ex
            if r1 is None:
                return b_and(b_not(c), f2), r2, ex
            if r2 is None:
                return b_and(c, f1), r1, ex
            return ite(c, f1, f2), self.merge(c, r1, r2), ex
        k = cint(n)
        if k is not None and k <= 64:
            exits = []
            fall = TRUE
            for i in range(max(k, 0)):
                if st is None:
                    break
                if lam is not None:
                    fc, st2, ex = self.loop_segs(open_lam(lam, N(i)).args, s, st, mod, fid)
                else:
                    fc, st2, ex = self.loop_body(elem(N(i), st), s, st, mod, fid)
                exits += [Exit(e.kind, b_and(fall, e.cond), e.value, e.state) for e in ex]
                fall = b_and(fall, fc)
                st = st2
            return (fall if st is not None else FALSE), st, exits
        isym = freshsym('i')
        self.loopdepth += 1
        if self.loopdepth > 8:
            raise Unsupported('loop nesting')
        try:
            def run(z):
                if body is not None:
                    return body(isym, z)
                if lam is not None:
                    return self.loop_segs(open_lam(lam, isym).args, s, z, mod, fid)
                return self.loop_body(elem(isym, z), s, z, mod, fid)

            pre = st
            carried = {}
            hopes = {}
            for rnd in range(5):
                z = pre.clone()
                self.havoc(z, carried)
                zc = z.clone()
                for q in hopes:
                    self.assume(z, mk('isnone', q), False)
                fc, r, ex = run(z)
                # raises inside an iteration
                if r is None:
                    if not [e for e in ex if e.kind != 'raise']:
                        # every iteration raises
                        c = gt(n, ZERO)
                        res = [Exit('raise', c, e.value, pre.clone()) for e in ex[:1]]
                        return b_not(c), pre, res
                    raise Unsupported('loop always leaves')
                changed = self.changed_cells(zc, r, pre)
                new = [c for c in changed if c not in carried]
                if not new:
                    break
                for c in new:
                    carried[c] = freshsym('p')
                    if c[0] == 'env':
                        v0 = pre.envs[c[1]].get(c[2], UNDEF)
                        if v0 is not UNDEF and isnone(self.freeze(v0, pre)) is FALSE:
                            # optimistic; confirmed below by induction over the iterations
                            hopes[carried[c]] = c
            else:
                raise Unsupported('loop does not stabilise')
            bad = [c for c in hopes.values() if isnone(self.freeze(r.envs[c[1]].get(c[2], UNDEF), r)) is not FALSE]
            if bad:
                hopes = None
                carried = {c: freshsym('p') for c in carried}
                z = pre.clone()
                self.havoc(z, carried)
                fc, r, ex = run(z)
                if r is None:
                    raise Unsupported('loop always leaves')
            exits = []
            brk = [e for e in ex if e.kind in ('%broke', 'return')]
            if brk:
                return self.search_loop(n, isym, pre, carried, fc, r, ex, s, fid)
            for e in ex:
                if e.kind == 'raise':
                    ec = e.cond
                    if any(p.args[0] in ec.fv for p in carried.values()):
                        ec = tm.top('raise depends on carried value')
                    exits.append(Exit('raise', any_star(n, isym, ec), e.value, pre.clone()))
            final = self.close_loop(n, isym, pre, carried, r, s, fid)
            fall = TRUE
            for e in exits:
                fall = b_and(fall, b_not(e.cond))
            return fall, final, exits
        finally:
            self.loopdepth -= 1

    def havoc(self, st, carried):
        for cell, p in carried.items():
            kind = cell[0]
            if kind == 'env':
                st.envs[cell[1]][cell[2]] = p
            elif kind == 'seg':
                o = st.heap.get(cell[1])
                if o is None:
                    o = Obj('list')
                st.heap[cell[1]] = o.rep(segs=(mk('spread', p),))
            elif kind == 'dict':
                st.heap[cell[1]] = st.heap[cell[1]].rep(items={}, base=p)
            elif kind == 'attr':
                o = st.heap[cell[1]]
                ch = dict(o.ch)
                ch[cell[2]] = p
                st.heap[cell[1]] = o.rep(ch=ch)
            elif kind == 'content':
                o = st.heap[cell[1]]
                st.heap[cell[1]] = o.rep(content=p, ch={k: v for k, v in o.ch.items() if ('ch', cell[1], k) in carried})
            elif kind == 'ch':
                o = st.heap[cell[1]]
                ch = dict(o.ch)
                ch[cell[2]] = self.newop(st, p)
                st.heap[cell[1]] = o.rep(ch=ch)

    def changed_cells(self, a, b, pre):
        out = []
        for fid, e in b.envs.items():
            e0 = a.envs.get(fid)
            if e0 is None:
                continue
            if fid not in pre.envs:
                continue
            for k, v in e.items():
                v0 = e0.get(k, UNDEF)
                if not sameval(v, v0):
                    out.append(('env', fid, k))
        for oid, o in b.heap.items():
            o0 = a.heap.get(oid)
            if o0 is o:
                continue
            if o0 is None:
                if type(oid) is tuple:
                    out.append(('seg', oid))
                continue
            if oid not in pre.heap:
                continue
            if o.kind != o0.kind:
                raise Unsupported('object changes kind in loop')
            if o.kind in ('list', 'set'):
                if not segs_same(o.segs, o0.segs):
                    out.append(('seg', oid))
            elif o.kind == 'dict':
                if o.base is not o0.base or set(o.items) != set(o0.items) or any(
                        not sameval(o.items[k][1], o0.items[k][1]) or o.items[k][0] is not o0.items[k][0] for k in o.items):
                    out.append(('dict', oid))
            elif o.kind == 'inst':
                for k, v in o.ch.items():
                    if not sameval(v, o0.ch.get(k, UNDEF)):
                        out.append(('attr', oid, k))
            elif o.kind == 'op':
                if o.content is not o0.content:
                    out.append(('content', oid))
                for k, v in o.ch.items():
                    if k not in o0.ch:
                        if self.freeze(v, b) is not self.default_child(o.content, k):
                            out.append(('ch', oid, k))
                    elif not sameval(v, o0.ch[k]):
                        out.append(('ch', oid, k))
        return out

    def cell_get(self, cell, st):
        k = cell[0]
        if k == 'env':
            return self.freeze(st.envs[cell[1]].get(cell[2], UNDEF), st)
        o = st.heap.get(cell[1])
        if k == 'seg':
            if o is None:
                return mk('list')
            return mk('list', *self.fsegs(o.segs, st))
        if k == 'dict':
            return self.freeze(Ref(cell[1]), st)
        if k == 'attr':
            return self.freeze(o.ch.get(cell[2], UNDEF), st)
        if k == 'content':
            return o.content
        if k == 'ch':
            if cell[2] in o.ch:
                return self.freeze(o.ch[cell[2]], st)
            return self.default_child(o.content, cell[2])

    def cell_set(self, cell, t, st):
        k = cell[0]
        if k == 'env':
            st.envs[cell[1]][cell[2]] = self.box(t, st)
            return
        o = st.heap.get(cell[1])
        if k == 'seg':
            if o is None:
                o = Obj('list')
            st.heap[cell[1]] = o.rep(segs=spread_segs(t) if t.op in ('list', 'tuple', 'ite', 'range') else (mk('spread', t),))
        elif k == 'dict':
            if t.op == 'dict':
                st.heap[cell[1]] = o.rep(items={kk: (TRUE, v) for kk, v in t.args}, base=None)
            else:
                st.heap[cell[1]] = o.rep(items={}, base=t)
        elif k == 'attr':
            ch = dict(o.ch)
            ch[cell[2]] = self.box(t, st)
            st.heap[cell[1]] = o.rep(ch=ch)
        elif k == 'content':
            st.heap[cell[1]] = o.rep(content=t)
        elif k == 'ch':
            ch = dict(o.ch)
            ch[cell[2]] = self.box(t, st)
            st.heap[cell[1]] = o.rep(ch=ch)

    def live_after(self, cell, s, fid):
        """can the carried variable be read outside this loop statement?"""
        if cell[0] != 'env' or s is None or not hasattr(s, 'lineno'):
            return True
        fr = self.frames.get(cell[1])
        node = self.frame_node.get(cell[1]) if hasattr(self, 'frame_node') else None
        if node is None:
            return True
        name = cell[2]
        inside = set(id(x) for x in ast.walk(s))
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and id(x) not in inside:
                return True
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name and id(x) not in inside:
                return True
        return False

    def close_loop(self, n, isym, pre, carried, post, s, fid):
        st = pre.clone()
        # keep objects allocated by the loop out of the result
        terms = {}
        pres = {}
        for cell in carried:
            pres[cell] = self.cell_get(cell, pre)
            if cell[0] == 'env' and not self.live_after(cell, s, fid):
                used = False
            terms[cell] = self.cell_get(cell, post)
        psyms = {p: c for c, p in carried.items()}
        pid = {p.args[0]: c for c, p in carried.items()}
        # closed forms for plain counters
        changed = True
        closed = {}
        while changed:
            changed = False
            for cell in list(terms):
                if cell in closed:
                    continue
                p = carried[cell]
                t = terms[cell]
                if cell[0] in ('seg', 'dict'):
                    continue
                if p.args[0] in t.fv and t.op in ('poly',):
                    e = sub(t, p)
                    if p.args[0] not in e.fv and not (e.fv & set(pid)) and isym.args[0] not in e.fv:
                        closed[cell] = add(pres[cell], mul(isym, e))
                        changed = True
                elif t is p:
                    closed[cell] = pres[cell]
                    changed = True
            if changed:
                m = {carried[c]: v for c, v in closed.items()}
                for cell in terms:
                    if cell not in closed:
                        terms[cell] = subst(terms[cell], m)
        final = {}
        self.settled(terms, pres, carried, pid, closed, final, n, isym)
        for cell in terms:
            p = carried[cell]
            if cell in final:
                continue
            if cell in closed:
                t = terms[cell]
                e = sub(t, p) if t is not p else ZERO
                final[cell] = add(pres[cell], mul(nonneg(n), e)) if t is not p else pres[cell]
                continue
            if not self.live_after(cell, s, fid):
                final[cell] = UNDEF
                continue
            final[cell] = self.close_cell(cell, terms, pres, carried, pid, n, isym)
        for cell, t in final.items():
            o = pre.heap.get(cell[1]) if cell[0] not in ('env', 'ch') else None
            if o is not None and o.kind == 'op' and o.cls == 'ds' and t.op == 'fold' and any(k[0] == 'item' for k in o.ch):
                # may have replaced variables stored earlier
                st.heap[cell[1]] = o.rep(content=tm.top('dataset filled under computed names'), ch={k: v for k, v in o.ch.items() if k[0] != 'item'})
                continue
            self.cell_set(cell, t, st)
        # objects created in the loop may still be referenced from event logs: frozen above
        for oid, o in post.heap.items():
            if oid not in st.heap and type(oid) is not tuple:
                pass
        return st

    def settled(self, terms, pres, carried, pid, closed, final, n, isym):
        """values an iteration takes over from the one before it, and values that stay as the first iteration left them"""
        i0 = isym.args[0]
        open_ = [c for c in terms if c not in closed and c[0] in ('env', 'attr') and pres[c].op != 'undef']
        used = set()
        for c, t in terms.items():
            used |= t.fv & set(pid)
        open_ = [c for c in open_ if carried[c].args[0] in used]
        while open_:
            m = {}
            for c in open_:
                if not (terms[c].fv & set(pid)):
                    m[carried[c]] = ite(gt(isym, ZERO), subst(terms[c], {isym: sub(isym, ONE)}), pres[c])
                    final[c] = ite(gt(n, ZERO), subst(terms[c], {isym: sub(n, ONE)}), pres[c])
            if not m:
                stuck = list(open_)
                while stuck:
                    start = {carried[c]: pres[c] for c in stuck}
                    first = {c: subst(subst(terms[c], start), {isym: ZERO}) for c in stuck}
                    again = {carried[c]: first[c] for c in stuck}
                    keep = [c for c in stuck if not (first[c].fv & set(pid)) and subst(terms[c], again) is first[c]]
                    if len(keep) == len(stuck):
                        break
                    stuck = keep
                for c in stuck:
                    m[carried[c]] = ite(gt(isym, ZERO), first[c], pres[c])
                    final[c] = ite(gt(n, ZERO), first[c], pres[c])
            if not m:
                break
            open_ = [c for c in open_ if carried[c] not in m]
            for c in terms:
                if c not in final and c not in closed:
                    terms[c] = subst(terms[c], m)

    def close_cell(self, cell, terms, pres, carried, pid, n, isym):
        t = terms[cell]
        p = carried[cell]
        i0 = isym.args[0]
        p0 = p.args[0]
        others = (t.fv & set(pid)) - {p0}
        if cell[0] == 'seg':
            pre = pres[cell]
            segs = t.args if t.op in ('list',) else None
            if segs is not None and segs and segs[0].op == 'spread' and segs[0].args[0] is p:
                rest = segs[1:]
                if not any((x.fv & set(pid)) for x in rest):
                    return mk('list', *norm_segs(pre.args + star(n, isym, rest)))
                if not any(p0 in x.fv for x in rest):
                    return mk('list', *(pre.args + (mk('spread', self.fold(cell, terms, pres, carried, pid, n, isym)),)))
            return self.fold(cell, terms, pres, carried, pid, n, isym)
        if cell[0] == 'dict':
            if t.op == 'upd' and t.args[0] is p:
                items = []
                ok = True
                for kk, v in t.args[1]:
                    if v.fv & set(pid) or kk[1].fv & set(pid):
                        ok = False
                    items.append(mk('tuple', kk[1], v))
                if ok:
                    if all(i0 not in it.args[0].fv for it in items):
                        # fixed keys: last value wins
                        base = pres[cell]
                        if base.op == 'dict':
                            d = dict(base.args)
                            for it in items:
                                k0, v = it.args
                                lastv = subst(v, {isym: sub(n, ONE)})
                                d[k0] = ite(gt(n, ZERO), lastv, d.get(k0, ABSENT))
                            return mk('dict', *sorted(d.items(), key=lambda kv: kv[0].id))
                    return dictof(pres[cell], star(n, isym, tuple(items)))
            return self.fold(cell, terms, pres, carried, pid, n, isym)
        if others:
            return self.fold(cell, terms, pres, carried, pid, n, isym)
        pre = pres[cell]
        if p0 not in t.fv:
            return ite(gt(n, ZERO), subst(t, {isym: sub(n, ONE)}), pre)
        if t.op in ('max', 'min') and p in t.args:
            rest = [x for x in t.args if x is not p]
            if not any(p0 in x.fv for x in rest):
                e = maxmin(t.op, rest) if len(rest) > 1 else rest[0]
                return maxmin(t.op, [pre, app('a' + t.op, mk('list', *star(n, isym, (e,))))])
        if t.op == 'ite' or t.isb:
            # flag updates
            if t.isb or (t.op == 'ite' and tm.truth(p).op == 'truth'):
                tp = tm.truth(p)
                c = restrict(tm.truth(t), tp, False)
                d = restrict(tm.truth(t), tp, True)
                if d is TRUE and p0 not in c.fv and (t.isb or is_flag(t, p)):
                    return b_or(pre, any_star(n, isym, c))
                if c is FALSE and p0 not in d.fv and (t.isb or is_flag(t, p)):
                    return b_and(pre, b_not(any_star(n, isym, b_not(d))))
        if t.op == 'poly' or t.op == 'ite':
            e = self.increment(t, p)
            if e is not None and p0 not in e.fv:
                return add(pre, app('sum', mk('list', *star(n, isym, (e,)))))
        return self.fold(cell, terms, pres, carried, pid, n, isym)

    def increment(self, t, p):
        if t.op == 'ite':
            a = self.increment(t.args[1], p)
            b = self.increment(t.args[2], p)
            if a is None or b is None or p.args[0] in t.args[0].fv:
                return None
            return ite(t.args[0], a, b)
        if t is p:
            return ZERO
        if t.op == 'poly':
            return sub(t, p)
        return None

    def fold(self, cell, terms, pres, carried, pid, n, isym):
        # a store at the loop index over a whole array is just a list of values
        t = terms[cell]
        p = carried[cell]
        if t.op == 'setitem' and t.args[0] is p and t.args[1] is isym and not (t.args[2].fv & set(pid)) and length(pres[cell]) is n:
            return mk('list', *star(n, isym, (t.args[2],)))
        order = [cell]
        k = 0
        while k < len(order):
            for x in occurrence(terms[order[k]], pid):
                if x not in order:
                    order.append(x)
            k += 1
        body = mk('segs', *[terms[c] for c in order])
        lam = body
        lam = mk('lam', abstract(lam, isym))
        for c in order:
            lam = mk('lam', abstract(lam, carried[c]))
        return mk('fold', n, mk('segs', *[pres[c] for c in order]), lam)

    def search_loop(self, n, isym, pre, carried, fc, r, ex, s, fid):
        """loop left early by break/return"""
        live = [c for c in carried if self.live_after(c, s, fid)]
        hit = [e for e in ex if e.kind in ('%broke', 'return')]
        other = [e for e in ex if e.kind == 'raise']
        conds = [e.cond for e in hit]
        anyhit = FALSE
        for c in conds:
            anyhit = b_or(anyhit, c)
        pids = set(p.args[0] for p in carried.values())
        if other or (anyhit.fv & pids):
            raise Unsupported('loop left early with carried state')
        first = mk('first', n, lamify(isym, anyhit))
        found = any_star(n, isym, anyhit)
        exits = []
        for e in hit:
            c = b_and(found, subst(e.cond, {isym: first})) if len(hit) > 1 else found
            st = pre.clone()
            for cell in self.changed_cells(pre, e.state, pre):
                t = self.cell_get(cell, e.state)
                if t.fv & pids:
                    if cell in live or cell[0] != 'env':
                        raise Unsupported('loop left early with carried state')
                    t = UNDEF
                self.cell_set(cell, subst(t, {isym: first}), st)
            v = e.value
            if v is not None:
                v = self.freeze(v, e.state)
                if v.fv & pids:
                    raise Unsupported('loop left early with carried state')
                v = subst(v, {isym: first})
            exits.append(Exit(e.kind, c, v, st))
        final = self.close_loop(n, isym, pre, carried, r, s, fid)
        return b_not(found), final, exits

    def s_While(self, s, st, mod, fid):
        # coroutine receive loop
        if isinstance(s.test, ast.Constant) and s.test.value and any(isinstance(x, (ast.Yield,)) for x in ast.walk(s)):
            stream = self.stream
            fake = ast.For(target=ast.Name(id='%recv', ctx=ast.Store()), iter=None, body=s.body, orelse=[], lineno=s.lineno, end_lineno=s.end_lineno, col_offset=0)
            fc, r, ex = self.sym_loop(length(stream), lambda i, z: getitem(stream, i), fake, st, mod, fid)
            if r is None:
                return FALSE, None, ex
            return FALSE, None, ex + [Exit('raise', fc, S('GeneratorExit'), r)]
        # counter loop: while k < n: ...; k += step
        r = self.counter_while(s, st, mod, fid)
        if r is not None:
            return r
        # unroll while the test is decided
        exits = []
        fall = TRUE
        for _ in range(40):
            c = self.truth(self.ev(s.test, st, mod, fid), st)
            if c is FALSE:
                return fall, st, exits
            if c is not TRUE:
                raise Unsupported('while loop')
            f2, r2, e2 = self.exec_block(s.body, st, mod, fid)
            for e in e2:
                if e.kind in ('break', 'continue'):
                    raise Unsupported('break in while')
                exits.append(Exit(e.kind, b_and(fall, e.cond), e.value, e.state))
            if r2 is None:
                return FALSE, None, exits
            fall = b_and(fall, f2)
            st = r2
        raise Unsupported('while loop')

    def counter_while(self, s, st, mod, fid):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and isinstance(t.left, ast.Name)):
            return None
        k = t.left.id
        incs = [x for x in s.body if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == k]
        if len(incs) != 1 or s.body[-1] is not incs[0] or not isinstance(incs[0].op, ast.Add):
            return None
        if any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
            return None
        stores = [x for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == k and isinstance(x.ctx, ast.Store)]
        if len(stores) != 1:
            return None
        start = self.freeze(self.load_name(k, st, mod, fid), st)
        stop = self.freeze(self.ev(t.comparators[0], st, mod, fid), st)
        step = self.freeze(self.ev(incs[0].value, st, mod, fid), st)
        if isinstance(t.ops[0], ast.LtE):
            stop = add(stop, ONE)
        if step is not ONE or not is_int(start):
            return None
        n = sub(stop, start)
        fake = ast.For(target=ast.Name(id=k, ctx=ast.Store()), iter=None, body=s.body[:-1], orelse=[], lineno=s.lineno, end_lineno=s.end_lineno, col_offset=0)
        f, r, ex = self.sym_loop(nonneg(n), lambda i, z: add(start, i), fake, st, mod, fid)
        if r is not None:
            r.envs[fid][k] = add(start, nonneg(n))
        return f, r, ex

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, mod, fid):
        if isinstance(t, ast.Name):
            st.envs[fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts, st)
            for x, y in zip(t.elts, vals):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.assign(x, self.box(y, st), st, mod, fid)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.place(t.value, st, mod, fid), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            base = self.place(t.value, st, mod, fid)
            key = self.ev(t.slice, st, mod, fid)
            self.setitem(base, key, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, mod, fid)
        else:
            raise Unsupported('assign target')

    def place(self, e, st, mod, fid):
        """value of an expression about to be stored into; a bare computed array gets an identity"""
        v = self.ev(e, st, mod, fid)
        if isinstance(e, (ast.Name, ast.Attribute)):
            w = self.placed(v, st)
            if w is not v:
                v = w
                self.assign(e, v, st, mod, fid)
        return v

    def placed(self, v, st):
        if type(v) is T and v.op in ('poly', 'ite'):
            return self.newop(st, v, arr=True)
        if type(v) is IteV:
            a, b = self.placed(v.a, st), self.placed(v.b, st)
            if a is not v.a or b is not v.b:
                return IteV(v.c, a, b)
        return v

    def unpack(self, v, elts, st):
        n = len(elts)
        star_at = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if type(v) is IteV:
            a = self.unpack(v.a, elts, st)
            b = self.unpack(v.b, elts, st)
            return [self.merge_val(v.c, x, y) for x, y in zip(a, b)]
        if type(v) is T and v.op == 'ite':
            a = self.unpack(v.args[1], elts, st)
            b = self.unpack(v.args[2], elts, st)
            return [self.merge_val(v.args[0], x, y) for x, y in zip(a, b)]
        segs = None
        if type(v) is Tup:
            segs = v.segs
        elif type(v) is Ref and st.heap[v.oid].kind == 'list':
            segs = st.heap[v.oid].segs
        elif type(v) is T and v.op in ('list', 'tuple'):
            segs = v.args
        if segs is not None and len(segs) == 1 and n > 1 and type(segs[0]) is T and segs[0].op == 'where' and not star_at:
            # indices of a many-dimensional mask, one array per dimension
            return [segs[0]] + [app('wherek', segs[0].args[0], N(i)) for i in range(1, n)]
        if segs is not None and plainsegs(segs):
            if star_at:
                i = star_at[0]
                rest = len(segs) - (n - 1)
                return list(segs[:i]) + [self.newlist(st, segs[i:i + rest])] + list(segs[i + rest:])
            if len(segs) != n:
                self.pending.append((TRUE, S('ValueError'), st.clone()))
                self.notes.append('unpack mismatch at %s:%s: %d names, %d values' % (self.cur[0], self.cur[1], n, len(segs)))
                return [tm.top('unpack')] * n
            return list(segs)
        if star_at:
            return [tm.top('star unpack')] * n
        if segs is not None and len(segs) == 1 and type(segs[0]) is T and segs[0].op == 'star':
            k = tm.freshsym()
            body = tm.open_lam(segs[0].args[1], k).args
            if len(body) == 1 and body[0].op not in ('star', 'when', 'spread'):
                return [tm.subst(body[0], {k: N(i)}) for i in range(n)]
        if type(v) is Ref and st.heap[v.oid].kind in ('op', 'view'):
            return [self.getitem(v, N(i), st) for i in range(n)]
        t = self.freeze(v, st)
        if t.op == 'undef':
            return [t] * n
        return [getitem(t, N(i)) for i in range(n)]

    def setattr(self, base, name, v, st):
        if type(base) is IteV:
            self.guarded(base, st, lambda b, z: self.setattr(b, name, v, z))
            return
        if type(base) is Ref:
            o = st.heap[base.oid]
            if o.kind == 'inst':
                ch = dict(o.ch)
                ch[name] = v
                st.heap[base.oid] = o.rep(ch=ch)
                return
            if o.kind in ('op', 'view'):
                if self.from_rule() and name not in self.repo_names():
                    raise Unsupported('attribute %s not found' % name)
                self.M.op_setattr(self, base, o, name, v, st)
                return
        if isinstance(base, FuncVal) or isinstance(base, Ext) or isinstance(base, ModuleVal):
            return
        if type(base) is T and base.op == 'unbound':
            self.pending.append((TRUE, S('UnboundLocalError'), st.clone()))
            return
        raise Unsupported('attribute store on %s' % (getattr(base, 'op', type(base).__name__),))

    def guarded(self, iv, st, f):
        """run a store under each alternative of a conditional reference"""
        s1, s2 = st.clone(), st.clone()
        f(iv.a, s1)
        f(iv.b, s2)
        m = self.merge(iv.c, s1, s2)
        st.heap, st.envs = m.heap, m.envs

    def setitem(self, base, key, v, st):
        if type(base) is IteV:
            self.guarded(base, st, lambda b, z: self.setitem(b, key, v, z))
            return
        if type(base) is T and base.op == 'unbound':
            self.pending.append((TRUE, S('UnboundLocalError'), st.clone()))
            return
        if type(base) is T and base.op in ('none', 'n', 'b') or base is NONE:
            self.pending.append((TRUE, S('TypeError'), st.clone()))
            return
        if type(base) is not Ref:
            raise Unsupported('item store on %r' % (base,))
        self.settle(base, st)
        o = st.heap[base.oid]
        if o.kind == 'dict':
            k = self.freeze(key, st)
            if k.op == 'ite':
                s1, s2 = st.clone(), st.clone()
                self.setitem(base, k.args[1], v, s1)
                self.setitem(base, k.args[2], v, s2)
                m = self.merge(k.args[0], s1, s2)
                st.heap, st.envs = m.heap, m.envs
                return
            items = dict(o.items)
            items[k] = (TRUE, v)
            st.heap[base.oid] = o.rep(items=items)
            return
        if o.kind == 'list':
            k = self.freeze(key, st)
            i = cint(k) if k.op == 'n' else None
            if i is not None and plainsegs(o.segs) and -len(o.segs) <= i < len(o.segs):
                l = list(o.segs)
                l[i] = v
                st.heap[base.oid] = o.rep(segs=tuple(l))
                return
            t = setitem(self.freeze(base, st), k, self.freeze(v, st))
            st.heap[base.oid] = o.rep(segs=(mk('spread', t),))
            return
        if o.kind in ('op', 'view'):
            self.M.op_setitem(self, base, o, key, v, st)
            return
        if o.kind == 'inst':
            m, _ = o.cls.lookup('__setitem__')
            if m is not None:
                self.call(Bound(m, base), [key, v], {}, st)
                return
            ch = dict(o.ch)
            k = self.freeze(key, st)
            ch['[%d]' % k.id] = v
            st.heap[base.oid] = o.rep(ch=ch)
            return
        raise Unsupported('item store on %s' % o.kind)

    def setcontent(self, ref, t, st):
        """overwrite an array's content, through views"""
        o = st.heap[ref.oid]
        if o.kind == 'view':
            p = self.freeze(o.parent, st)
            if o.key == 'T':
                nt = app('transpose', t)
            elif o.key == 'flipud':
                nt = app('flipud', t)
            else:
                nt = self.view_store(p, o.key, t)
            self.setcontent(o.parent, nt, st)
            return
        if o.kind == 'op':
            keep = {k: v for k, v in o.ch.items() if self.freeze(v, st) is not self.default_child(o.content, k)}
            st.heap[ref.oid] = o.rep(content=t, ch=keep)
            return
        if o.kind == 'list':
            st.heap[ref.oid] = o.rep(segs=spread_segs(t))
            return
        raise Unsupported('content of %s' % o.kind)

    def view_store(self, p, key, t):
        if t.op == 'n' or t.op == 'b' or t.op == 'c':
            return setitem(p, key, t)
        return setitem(p, key, t)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, mod, fid):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        v = m(e, st, mod, fid)
        if type(v) is T and self.record_sites and v not in self.sites:
            self.sites[v] = (mod.path, e.lineno)
        return v

    def evf(self, e, st, mod, fid):
        return self.freeze(self.ev(e, st, mod, fid), st)

    def e_Constant(self, e, st, mod, fid):
        return const(e.value)

    def load_name(self, name, st, mod, fid):
        f = fid
        while f is not None:
            env = st.envs.get(f)
            if env is None:
                env = self.state0.envs.get(f)
            if env is not None and name in env:
                v = env[name]
                if type(v) is T and v.op == 'ite' and UNDEF in v.args:
                    v = dropundef(v)
                while type(v) is IteV and (v.a is UNDEF or v.b is UNDEF):
                    v = v.b if v.a is UNDEF else v.a
                if type(v) is T and (v.op == 'ite' or v.isb):
                    v = self.simp(v, st)
                while type(v) is IteV:
                    c = self.simp(v.c, st)
                    if c is TRUE:
                        v = v.a
                    elif c is FALSE:
                        v = v.b
                    else:
                        break
                return v
            f = self.frames[f][0]
        env = self.state0.envs.get(mod.fid, {})
        if name in env:
            return env[name]
        if name in self.extra_builtins:
            return self.extra_builtins[name]
        if name in BUILTIN_NAMES:
            return Builtin(name)
        self.notes.append('unbound name %s at %s:%s' % (name, self.cur[0], self.cur[1]))
        return mk('unbound', name)

    def e_Name(self, e, st, mod, fid):
        v = self.load_name(e.id, st, mod, fid)
        if type(v) is T and v.op == 'unbound':
            self.pending.append((TRUE, S('UnboundLocalError'), st.clone()))
        return v

    def e_Tuple(self, e, st, mod, fid):
        return Tup(self.elts(e.elts, st, mod, fid))

    def elts(self, elts, st, mod, fid):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, mod, fid)
                out.extend(self.value_segs(v, st))
            else:
                out.append(self.ev(x, st, mod, fid))
        return tuple(out)

    def value_segs(self, v, st):
        return self.plain_segs(self.iter_segs(v, st), st)

    def plain_segs(self, segs, st):
        out = []
        for g in segs:
            if type(g) is tuple:
                if g[0] == 'spreadref':
                    out.append(mk('spread', g[2]))
                else:
                    out.extend(when(g[1], tuple(self.freeze(x, st) for x in self.plain_segs(g[2], st))))
            else:
                out.append(g)
        return tuple(out)

    def e_List(self, e, st, mod, fid):
        return self.newlist(st, self.elts(e.elts, st, mod, fid))

    def e_Set(self, e, st, mod, fid):
        return self.alloc(st, Obj('set', segs=self.elts(e.elts, st, mod, fid)))

    def e_Dict(self, e, st, mod, fid):
        r = self.newdict(st)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.M.dict_update(self, r, self.ev(v, st, mod, fid), st)
            else:
                kk = self.ev(k, st, mod, fid)
                vv = self.box(self.ev(v, st, mod, fid), st)
                self.setitem(r, kk, vv, st)
        return r

    def e_JoinedStr(self, e, st, mod, fid):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(S(x.value))
            else:
                v = self.evf(x.value, st, mod, fid)
                spec = ''
                if x.format_spec is not None:
                    sp = self.freeze(self.e_JoinedStr(x.format_spec, st, mod, fid), st)
                    spec = cstr(sp)
                if x.conversion == 114:
                    v = app('repr', v)
                parts.append(fmt(v, spec) if spec is not None else app('fmt', v, sp))
        return concat(parts) if parts else S('')

    def e_Starred(self, e, st, mod, fid):
        raise Unsupported('starred')

    def e_Attribute(self, e, st, mod, fid):
        base = self.ev(e.value, st, mod, fid)
        return self.getattr(base, e.attr, st)

    def e_Subscript(self, e, st, mod, fid):
        base = self.ev(e.value, st, mod, fid)
        key = self.ev(e.slice, st, mod, fid)
        return self.getitem(base, key, st)

    def e_Slice(self, e, st, mod, fid):
        parts = [NONE if x is None else self.evf(x, st, mod, fid) for x in (e.lower, e.upper, e.step)]
        return self.M.mkslice(*parts)

    def e_NamedExpr(self, e, st, mod, fid):
        v = self.box(self.ev(e.value, st, mod, fid), st)
        self.assign(e.target, v, st, mod, fid)
        return v

    def e_Lambda(self, e, st, mod, fid):
        return self.make_func(e, st, mod, fid, None)

    def e_IfExp(self, e, st, mod, fid):
        c = self.truth(self.ev(e.test, st, mod, fid), st)
        if c is TRUE:
            return self.ev(e.body, st, mod, fid)
        if c is FALSE:
            return self.ev(e.orelse, st, mod, fid)
        s1, s2 = st.clone(), st.clone()
        self.assume(s1, c, True)
        self.assume(s2, c, False)
        n = len(self.pending)
        a = self.ev(e.body, s1, mod, fid)
        self.cond_pending(n, c)
        n = len(self.pending)
        b = self.ev(e.orelse, s2, mod, fid)
        self.cond_pending(n, b_not(c))
        self.adopt(st, self.merge(c, s1, s2))
        return self.merge_val(c, a, b)

    def cond_pending(self, n, c):
        for i in range(n, len(self.pending)):
            a, b, d = self.pending[i]
            self.pending[i] = (b_and(c, a), b, d)

    def adopt(self, st, m):
        st.heap, st.envs = m.heap, m.envs

    def e_BoolOp(self, e, st, mod, fid):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], st, mod, fid)
        for x in e.values[1:]:
            c = self.truth(v, st)
            if c is (FALSE if isand else TRUE):
                return v
            if c is (TRUE if isand else FALSE):
                v = self.ev(x, st, mod, fid)
                continue
            s1, s2 = st.clone(), st.clone()
            self.assume(s1, c, isand)
            n = len(self.pending)
            w = self.ev(x, s1, mod, fid)
            self.cond_pending(n, c if isand else b_not(c))
            if isand:
                self.adopt(st, self.merge(c, s1, s2))
                tv, tw = (v if type(v) is T else None), (w if type(w) is T else None)
                if tv is not None and tw is not None and (tv.isb or tw.isb):
                    v = b_and(tv, tw)
                else:
                    v = self.merge_val(c, w, v)
            else:
                self.adopt(st, self.merge(c, s2, s1))
                tv, tw = (v if type(v) is T else None), (w if type(w) is T else None)
                if tv is not None and tw is not None and tv.isb:
                    v = b_or(tv, tw) if tw.isb else ite(c, TRUE, tw)
                elif tw is tm.ONE and tv is not None and tm.is_int(tv) and (tv.op == 'floor' and tm.nonneg_lb(tv.args[0]) or tm.nonneg_lb(tv)):
                    v = app('max', tm.ONE, tv)
                else:
                    v = self.merge_val(c, v, w)
        return v

    def e_UnaryOp(self, e, st, mod, fid):
        v = self.ev(e.operand, st, mod, fid)
        if isinstance(e.op, ast.Not):
            return b_not(self.truth(v, st))
        t = self.freeze(v, st)
        if t.op in ('list', 'tuple') and self.is_arr(v, st):
            t = mk('vec', t)
        if isinstance(e.op, ast.USub):
            return neg(t)
        if isinstance(e.op, ast.UAdd):
            return t
        if self.M.boolish(t):
            return b_not(t)
        if t.op == 'n':
            return N(~int(t.args[0]))
        return app('invert', t)

    def e_BinOp(self, e, st, mod, fid):
        a = self.ev(e.left, st, mod, fid)
        b = self.ev(e.right, st, mod, fid)
        return self.binop(type(e.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        if type(a) is Tup and type(b) is Tup and op == 'Add':
            return Tup(a.segs + b.segs)
        if type(a) is Ref and op == 'Add':
            o = st.heap[a.oid]
            if o.kind == 'list' and not (type(b) is Ref and st.heap[b.oid].kind in ('op', 'view')):
                return self.newlist(st, o.segs + self.value_segs(b, st))
            if o.kind == 'inst':
                m, _ = o.cls.lookup('__add__')
                if m is not None:
                    return self.call(Bound(m, a), [b], {}, st)
        if op == 'Mod' and type(a) is T and is_str(a):
            return self.M.percent_format(self, a, b, st)
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if type(x) is Ref and st.heap[x.oid].kind == 'list':
                    k = self.freeze(y, st)
                    n = cint(k) if k.op == 'n' else None
                    if n is not None and n <= 64 and plainsegs(st.heap[x.oid].segs):
                        return self.newlist(st, st.heap[x.oid].segs * n)
                    return app('repeat', self.freeze(x, st), k)
                if type(x) is Tup:
                    k = self.freeze(y, st)
                    n = cint(k) if k.op == 'n' else None
                    if n is not None and n <= 64:
                        return Tup(x.segs * n)
        x, y = self.freeze(a, st), self.freeze(b, st)
        if self.is_arr(a, st) or self.is_arr(b, st):
            # arithmetic on arrays made from lists goes element by element
            r = self.each(op, x, y)
            if r is not None:
                return self.newop(st, r, arr=True)
            x, y = (mk('vec', t) if t.op in ('list', 'tuple') else t for t in (x, y))
        r = self.M.arith(op, x, y)
        if (self.is_arr(a, st) or self.is_arr(b, st)) and type(r) is T and not r.isb and r.op not in ('n',):
            return self.newop(st, r, arr=True)
        return r

    def each(self, op, x, y):
        """arithmetic of a short list of numbers with one number"""
        if (x.op in ('list', 'tuple') and y.op in ('list', 'tuple') and 0 < len(x.args) == len(y.args) <= 16
                and plainsegs(x.args) and plainsegs(y.args) and all(self.number(a) for a in x.args + y.args)):
            return mk('list', *[self.M.arith(op, a, b) for a, b in zip(x.args, y.args)])
        if y.op in ('list', 'tuple') and 0 < len(y.args) <= 16 and plainsegs(y.args) and all(self.number(a) for a in y.args):
            if x.op == 'getitem' and x.args[1].op == 'slice' and x.args[1].args[2] is NONE:
                lo, hi, _ = x.args[1].args
                if NONE not in (lo, hi) and tm.cnum(sub(hi, lo)) == len(y.args):
                    return mk('list', *[self.M.arith(op, app('getitem', x.args[0], add(lo, N(i))), b) for i, b in enumerate(y.args)])
        for t, k, flip in ((x, y, False), (y, x, True)):
            if (t.op == 'list' and 0 < len(t.args) <= 16 and plainsegs(t.args) and self.number(k)
                    and all(self.number(a) for a in t.args)):
                return mk('list', *[self.M.arith(op, k, a) if flip else self.M.arith(op, a, k) for a in t.args])
        return None

    def number(self, t):
        if t.op in ('n',) or t in self.nums:
            return True
        if t.op == 'poly':
            return all(self.number(a) for m, _ in t.args for a, _ in m)
        if t.op in ('abs', 'floor', 'pow', 'int', 'max', 'min', 'len'):
            return all(self.number(a) for a in t.args if type(a) is T) or t.op == 'len'
        return False

    def e_Compare(self, e, st, mod, fid):
        left = self.ev(e.left, st, mod, fid)
        r = TRUE
        for op, c in zip(e.ops, e.comparators):
            if type(op).__name__ in ('In', 'NotIn') and isinstance(c, ast.Attribute) and c.attr in ('variables', 'data_vars'):
                # the names of a dataset
                right = self.ev(c.value, st, mod, fid)
                if not (type(right) is Ref and st.heap[right.oid].kind == 'op'):
                    right = self.ev(c, st, mod, fid)
            else:
                right = self.ev(c, st, mod, fid)
            r = b_and(r, self.compare(type(op).__name__, left, right, st))
            left = right
        return self.simp(r, st)

    def compare(self, op, a, b, st):
        if op in ('Is', 'IsNot'):
            r = self.is_same(a, b, st)
            return r if op == 'Is' else b_not(r)
        if op in ('In', 'NotIn'):
            r = self.M.contains(self, b, a, st)
            return r if op == 'In' else b_not(r)
        x, y = self.freeze(a, st), self.freeze(b, st)
        return self.M.cmp(op, x, y)

    def is_same(self, a, b, st):
        for x, y in ((a, b), (b, a)):
            if x is NONE:
                if type(y) is T:
                    return isnone(y)
                if type(y) is IteV:
                    return ite(y.c, self.is_same(y.a, NONE, st), self.is_same(y.b, NONE, st))
                if type(y) is Ref:
                    o = st.heap[y.oid]
                    if o.kind == 'op' and not o.arr:
                        return isnone(o.content)
                return FALSE
        if type(a) is Ref and type(b) is Ref and a.oid == b.oid:
            return TRUE
        x, y = self.freeze(a, st), self.freeze(b, st)
        if x is y:
            return TRUE
        if is_const(x) and is_const(y):
            return FALSE
        for p, q in ((x, y), (y, x)):
            if p.op == 'b' and (q.op in ('list', 'tuple', 'dict', 'n', 'poly', 'c')):
                return FALSE
            if p.op == 'b' and q.isb:
                return eq(p, q)
        if x.op == 'ite' or y.op == 'ite':
            return app('is', *sorted([x, y], key=lambda z: z.id))
        return app('is', *sorted([x, y], key=lambda z: z.id))

    # comprehensions -----------------------------------------------------
    def comp(self, e, st, mod, fid, emit):
        nf = self.fresh()
        self.frames[nf] = (fid, mod)
        st.envs[nf] = {}
        body = [emit]
        node = None
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.copy_location(ast.If(test=c, body=body, orelse=[]), c)]
            f = ast.For(target=g.target, iter=g.iter, body=body, orelse=[])
            ast.copy_location(f, e)
            body = [f]
        # the first iterable is evaluated in the enclosing scope; names resolve the same way
        fc, r, ex = self.s_For(body[0], st, mod, nf)
        if ex:
            for x in ex:
                if x.kind == 'raise':
                    self.pending.append((x.cond, x.value, x.state))
        if r is None:
            raise Unsupported('comprehension always raises')
        r.envs.pop(nf, None)
        if r is not st:
            st.heap, st.envs = r.heap, r.envs

    def e_ListComp(self, e, st, mod, fid):
        l = self.newlist(st)
        em = Emit(l, e.elt, None)
        ast.copy_location(em, e)
        self.comp(e, st, mod, fid, em)
        return l

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, mod, fid):
        l = self.e_ListComp(e, st, mod, fid)
        return self.alloc(st, Obj('set', segs=st.heap[l.oid].segs))

    def e_DictComp(self, e, st, mod, fid):
        d = self.newdict(st)
        em = Emit(d, e.key, e.value)
        ast.copy_location(em, e)
        self.comp(e, st, mod, fid, em)
        return d

    def s_Emit(self, s, st, mod, fid):
        if s.val is None:
            v = self.ev(s.expr, st, mod, fid)
            v = self.box(v, st)
            o = st.heap[s.ref.oid]
            st.heap[s.ref.oid] = o.rep(segs=o.segs + (v,))
        else:
            k = self.ev(s.expr, st, mod, fid)
            v = self.box(self.ev(s.val, st, mod, fid), st)
            self.setitem(s.ref, k, v, st)
        return TRUE, st, []

    def list_extend(self, ref, v, st):
        o = st.heap[ref.oid]
        if o.loose:
            raise Unsupported('changing a list kept under a computed key')
        st.heap[ref.oid] = o.rep(segs=o.segs + self.value_segs(v, st))

    def e_Yield(self, e, st, mod, fid):
        f = fid
        while f is not None and '%yield' not in st.envs.get(f, {}):
            f = self.frames[f][0]
        if f is None:
            raise Unsupported('yield outside generator')
        env = st.envs[f]
        if e.value is not None:
            v = self.ev(e.value, st, mod, fid)
            l = env['%yield']
            o = st.heap[l.oid]
            st.heap[l.oid] = o.rep(segs=o.segs + (self.box(v, st),))
        if '%recv' in st.envs[fid]:
            return st.envs[fid]['%recv']
        return mk('in_', 'sent')

    def e_YieldFrom(self, e, st, mod, fid):
        env = st.envs[fid]
        v = self.ev(e.value, st, mod, fid)
        self.list_extend(env['%yield'], v, st)
        return NONE

    def e_Await(self, e, st, mod, fid):
        raise Unsupported('await')

    # ------------------------------------------------------------ attribute / item reads
    def getattr(self, base, name, st):
        if type(base) is IteV:
            c = self.simp(base.c, st)
            if c is TRUE:
                return self.getattr(base.a, name, st)
            if c is FALSE:
                return self.getattr(base.b, name, st)
            a = self.getattr(base.a, name, st)
            b = self.getattr(base.b, name, st)
            if isinstance(a, (Bound, Meth)) or isinstance(b, (Bound, Meth)):
                return IteV(c, a, b)
            return self.merge_val(c, a, b)
        if isinstance(base, ModuleVal):
            if base.name in self.modules:
                self.ensure(base.name)
                env = self.state0.envs[self.modules[base.name].fid]
                if name in env:
                    return env[name]
            if base.name + '.' + name in self.modules:
                return ModuleVal(base.name + '.' + name)
            if any(m.startswith(base.name + '.' + name + '.') for m in self.modules):
                return ModuleVal(base.name + '.' + name)
            return mk('unbound', base.name + '.' + name)
        if isinstance(base, Ext):
            return self.M.ext_value(self, Ext(base.path + '.' + name))
        if isinstance(base, ClassVal):
            v, c = base.lookup(name)
            if v is not None:
                return v
            if name == '__name__':
                return S(base.name)
            if base.ext_bases():
                return Meth(mk('cls', base.qual), name)
            return mk('unbound', base.qual + '.' + name)
        if isinstance(base, Super):
            o = st.heap[base.selfv.oid]
            v, c = o.cls.lookup(name, after=base.cls)
            if v is not None:
                return Bound(v, base.selfv)
            if not o.cls.ext_bases():
                return Builtin('object.' + name, lambda I, st, a, k: NONE)
            # method of a class outside the repository: a function of its arguments
            sv = base.selfv

            def outside(I, st, a, k):
                ts = I.M.argterms(I, a, k, st)
                ob = st.heap[sv.oid]
                if name == '__init__':
                    st.heap[sv.oid] = ob.rep(base=mk('madeby', ob.cls.qual, mk('tuple', *ts)))
                    return NONE
                return app('m.super.' + name, ob.base if ob.base is not None else mk('self', ob.cls.qual), *ts)
            return Builtin('super.' + name, outside)
        if type(base) is Ref:
            o = st.heap[base.oid]
            if o.kind == 'inst':
                if name in o.ch:
                    v = o.ch[name]
                    if type(v) is T and (v.op == 'ite' or v.isb):
                        v = self.simp(v, st)
                    return v
                v, c = o.cls.lookup(name)
                if v is not None:
                    if isinstance(v, FuncVal):
                        if v.kind == 'static':
                            return v
                        if v.kind == 'property':
                            return self.call(Bound(v, base), [], {}, st)
                        if v.kind == 'class':
                            return Bound(v, o.cls)
                        return Bound(v, base)
                    return v
                if name == '__class__':
                    return o.cls
                if name == '__dict__':
                    return tm.top('__dict__')
                if self.lost(o.cls, name):
                    return tm.top('attribute %s not found' % name)
                for c in o.cls.mro():
                    if '%s.%s' % (c.qual, name) in self.refs:
                        raise Unsupported('%s.%s not found' % (c.qual, name))
                g, _ = o.cls.lookup('__getattr__')
                if g is not None:
                    return self.call(Bound(g, base), [S(name)], {}, st)
                if o.base is not None or o.cls.ext_bases():
                    v = self.newop(st, self.M.attr_term(o.base if o.base is not None else mk('self', o.cls.qual), name))
                    ch = dict(o.ch)
                    ch[name] = v
                    st.heap[base.oid] = st.heap[base.oid].rep(ch=ch)
                    return v
                self.notes.append('missing attribute %s on %s' % (name, o.cls.qual))
                return mk('unbound' if o.key == 'built' else 'noattr', o.cls.qual + '.' + name)
            if o.kind in ('op', 'view'):
                return self.M.op_getattr(self, base, o, name, st)
            return Meth(base, name)
        if type(base) is T:
            return self.M.term_getattr(self, base, name, st)
        if type(base) is Tup:
            return Meth(base, name)
        if isinstance(base, FuncVal):
            if name == '__name__':
                return S(base.name)
            return tm.top('function attribute')
        if isinstance(base, (Builtin,)):
            return Builtin(base.name + '.' + name)
        if isinstance(base, (Bound, Meth, Partial)):
            return tm.top('attribute of callable')
        raise Unsupported('attribute %s of %r' % (name, base))

    def getitem(self, base, key, st):
        if type(base) is IteV:
            return self.merge_val(base.c, self.getitem(base.a, key, st), self.getitem(base.b, key, st))
        if type(base) is Tup:
            k = self.freeze(key, st)
            if len(base.segs) == 1 and type(base.segs[0]) is T and base.segs[0].op == 'where' and k.op == 'n' and cint(k) and cint(k) > 0:
                return app('wherek', base.segs[0].args[0], k)
            return self.seq_getitem(base.segs, k, st, lambda s: Tup(s), lambda: self.freeze(base, st))
        if type(base) is Ref:
            o = st.heap[base.oid]
            if o.kind == 'list':
                k = self.freeze(key, st)
                return self.seq_getitem(o.segs, k, st, lambda s: self.newlist(st, s), lambda: self.freeze(base, st))
            if o.kind == 'dict':
                self.settle(base, st)
                v = self.M.dict_get(self, base, key, st)
                if type(v) is T and v.op == 'list':
                    v = self.newlist(st, v.args)
                    st.heap[v.oid] = st.heap[v.oid].rep(loose=True)
                return v
            if o.kind in ('op', 'view'):
                return self.M.op_getitem(self, base, o, key, st)
            if o.kind == 'inst':
                m, _ = o.cls.lookup('__getitem__')
                if m is not None:
                    return self.call(Bound(m, base), [key], {}, st)
                k = self.freeze(key, st)
                if '[%d]' % k.id in o.ch:
                    return o.ch['[%d]' % k.id]
                return getitem(self.freeze(base, st), k)
            return getitem(self.freeze(base, st), self.freeze(key, st))
        if type(base) is T:
            return self.M.term_getitem(self, base, self.freeze(key, st), st)
        if isinstance(base, Ext):
            if base.path in ('np.r_', 'np.c_', 'np.s_', 'np.index_exp', 'np.mgrid', 'np.ogrid'):
                return self.M.ext_index(self, base, key, st)
            return app('getitem', mk('ext', base.path), self.freeze(key, st))
        if isinstance(base, (Bound, Meth)):
            return getitem(self.freeze(base, st), self.freeze(key, st))
        raise Unsupported('item of %r' % (base,))

    def seq_getitem(self, segs, k, st, make, whole):
        if k.op == 'ite':
            return self.merge_val(k.args[0], self.seq_getitem(segs, k.args[1], st, make, whole), self.seq_getitem(segs, k.args[2], st, make, whole))
        i = cint(k) if k.op in ('n',) else (cint(k) if k.op == 'b' else None)
        if i is not None:
            if i >= 0:
                pre = segs[:i + 1]
                if len(pre) > i and plainsegs(pre):
                    return pre[i]
            else:
                post = segs[i:]
                if len(post) == -i and plainsegs(post):
                    return post[0]
        if k.op == 'slice' and plainsegs(segs):
            try:
                a, b, c = [None if z is NONE else pyval(z) for z in k.args]
                return make(segs[slice(a, b, c)])
            except (KeyError, TypeError):
                pass
        if k.isb and plainsegs(segs) and len(segs) == 2 and k.op != 'b':
            return self.merge_val(k, segs[1], segs[0])
        return getitem(whole(), k)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, mod, fid):
        # logging and printing have no bearing on results
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'print':
            return NONE
        if isinstance(f, ast.Attribute) and f.attr in LOGNAMES and isinstance(f.value, ast.Name) and f.value.id in ('log', 'logger', 'logging', 'LOG', '_log', 'warnings'):
            return NONE
        if isinstance(f, ast.Name) and f.id == 'super':
            if e.args:
                c = self.ev(e.args[0], st, mod, fid)
                sv = self.ev(e.args[1], st, mod, fid)
            else:
                ff = fid
                c = sv = None
                while ff is not None:
                    env = st.envs.get(ff, {})
                    if '%func' in env:
                        fn = env['%func']
                        c = getattr(fn, 'ownercls', None)
                        sv = env.get(env['%self'])
                        break
                    ff = self.frames[ff][0]
            if c is None or type(sv) is not Ref:
                raise Unsupported('super')
            return Super(c, sv)
        if isinstance(f, ast.Attribute) and f.attr == 'append' and len(e.args) == 1 and isinstance(f.value, ast.Subscript):
            d = self.ev(f.value.value, st, mod, fid)
            if type(d) is Ref and st.heap[d.oid].kind == 'dict' and (st.heap[d.oid].base is not None or ('coll', d.oid) in st.heap):
                k = self.freeze(self.ev(f.value.slice, st, mod, fid), st)
                if k not in st.heap[d.oid].items:
                    # lists kept under computed keys: remember what was added under which key
                    v = self.freeze(self.ev(e.args[0], st, mod, fid), st)
                    c = ('coll', d.oid)
                    o = st.heap.get(c)
                    st.heap[c] = Obj('list', segs=(o.segs if o is not None else ()) + (mk('tuple', k, v),))
                    return NONE
        fv = self.ev(f, st, mod, fid)
        if isinstance(fv, Ext) and fv.path.split('.')[0] in ('logging', 'warnings', 'log'):
            return NONE
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, mod, fid)
                args.extend(self.value_segs(v, st))
            else:
                args.append(self.ev(a, st, mod, fid))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st, mod, fid)
            if k.arg is None:
                self.expand_kw(kwargs, v, st)
            else:
                kwargs[k.arg] = (TRUE, v)
        line = (mod.path, e.lineno)
        save = self.cur
        self.cur = line
        r = self.call(fv, args, kwargs, st)
        self.cur = save
        return r

    def expand_kw(self, kwargs, v, st):
        if type(v) is Ref and st.heap[v.oid].kind == 'dict':
            o = st.heap[v.oid]
            if o.base is not None:
                kwargs['**'] = (TRUE, o.base)
            for k, (p, x) in o.items.items():
                n = cstr(k)
                if n is None:
                    raise Unsupported('** with computed keys')
                kwargs[n] = (p, x)
            return
        t = self.freeze(v, st)
        if t.op == 'dict':
            for k, x in t.args:
                p = TRUE
                if x.op == 'ite' and x.args[2] is ABSENT:
                    p, x = x.args[0], x.args[1]
                elif x.op == 'ite' and x.args[1] is ABSENT:
                    p, x = b_not(x.args[0]), x.args[2]
                kwargs[cstr(k)] = (p, x)
            return
        kwargs['**'] = (TRUE, t)

    def call(self, fv, args, kwargs, st):
        self.tick()
        if isinstance(fv, FuncVal):
            return self.call_func(fv, args, kwargs, st)
        if isinstance(fv, Bound):
            if isinstance(fv.func, FuncVal):
                return self.call_func(fv.func, [fv.selfv] + list(args), kwargs, st)
            return self.call(fv.func, [fv.selfv] + list(args), kwargs, st)
        if isinstance(fv, Partial):
            kw = dict(fv.kwargs)
            kw.update(kwargs)
            return self.call(fv.func, list(fv.args) + list(args), kw, st)
        if isinstance(fv, ClassVal):
            return self.construct(fv, args, kwargs, st)
        if isinstance(fv, Builtin):
            return self.M.call_builtin(self, fv, args, kwargs, st)
        if isinstance(fv, Ext):
            return self.M.call_ext(self, fv, args, kwargs, st)
        if isinstance(fv, Meth):
            return self.M.call_method(self, fv.recv, fv.name, args, kwargs, st)
        if type(fv) is IteV:
            s1, s2 = st.clone(), st.clone()
            n = len(self.pending)
            a = self.call(fv.a, args, kwargs, s1)
            self.cond_pending(n, fv.c)
            n = len(self.pending)
            b = self.call(fv.b, args, kwargs, s2)
            self.cond_pending(n, b_not(fv.c))
            self.adopt(st, self.merge(fv.c, s1, s2))
            return self.merge_val(fv.c, a, b)
        if type(fv) is Ref:
            o = st.heap[fv.oid]
            if o.kind == 'inst':
                m, _ = o.cls.lookup('__call__')
                if m is not None:
                    return self.call(Bound(m, fv), args, kwargs, st)
            t = self.freeze(fv, st)
            return self.M.call_term(self, t, args, kwargs, st, o.eff if o.kind == 'op' else False)
        if type(fv) is T:
            return self.M.call_term(self, fv, args, kwargs, st, False)
        raise Unsupported('call %r' % (fv,))

    def construct(self, cls, args, kwargs, st):
        if cls.qual in self.opaque or cls.name in self.opaque:
            init, _ = cls.lookup('__init__')
            t = self.opaque_call('new:' + cls.name, init, [tm.mk('self')] + list(args) if init else args, kwargs, st, skip=1 if init else 0)
            self.log_event(('call', cls.name), t, st) if cls.name in self.sinks else None
            return self.newop(st, t)
        r = self.alloc(st, Obj('inst', ch={}, cls=cls, key='built'))
        init, _ = cls.lookup('__init__')
        if init is not None:
            self.call_func(init, [r] + list(args), kwargs, st)
        elif args or kwargs:
            if cls.ext_bases():
                t = mk('new', cls.qual, *self.M.argterms(self, args, kwargs, st))
                o = st.heap[r.oid]
                st.heap[r.oid] = o.rep(base=t)
        return r

    def bind(self, fv, args, kwargs, st, name=None):
        """parameter name -> value; raises Unsupported on mismatch"""
        a = fv.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        extra = []
        args = list(args)
        for i, v in enumerate(args):
            if type(v) is T and v.op in ('spread', 'star', 'when') and not (i >= len(pos) and a.vararg):
                # unknown number of positional arguments
                x = self.freeze(Tup(args[i:]), st)
                for j in range(len(pos) - i):
                    out[pos[i + j]] = getitem(x, N(j))
                args = args[:i]
                break
            if i < len(pos):
                out[pos[i]] = v
            else:
                extra.append(v)
        if extra and not a.vararg:
            self.pending.append((TRUE, S('TypeError'), st.clone()))
            self.notes.append('too many arguments for %s at %s:%s' % (fv.qual, self.cur[0], self.cur[1]))
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        nd = len(fv.defaults)
        defaults = dict(zip(pos[len(pos) - nd:], fv.defaults)) if nd else {}
        defaults.update(fv.kwdefaults)
        star = kwargs.get('**')
        for k, (p, v) in kwargs.items():
            if k == '**':
                continue
            if k in pos or k in kwonly:
                if k in out:
                    self.pending.append((p, S('TypeError'), st.clone()))
                    self.notes.append('argument %s of %s given twice at %s:%s' % (k, fv.qual, self.cur[0], self.cur[1]))
                if p is TRUE:
                    out[k] = v
                else:
                    d = defaults.get(k)
                    if d is None:
                        if star is not None:
                            d = getitem(star[1], S(k))
                        else:
                            self.pending.append((b_not(p), S('TypeError'), st.clone()))
                            d = v
                    out[k] = self.merge_val(p, v, d)
            elif a.kwarg:
                rest[k] = (p, v)
            else:
                self.pending.append((p, S('TypeError'), st.clone()))
                self.notes.append('unexpected argument %s for %s at %s:%s' % (k, fv.qual, self.cur[0], self.cur[1]))
        base = None
        if star is not None:
            base = star[1]
            used = []
            for k in pos + kwonly:
                if k not in out:
                    t = base
                    if k in defaults:
                        out[k] = self.merge_val(self.M.has_key(t, S(k)), getitem(t, S(k)), defaults[k])
                    else:
                        out[k] = getitem(t, S(k))
                    used.append(S(k))
            if used:
                base = self.M.dpop(base, used)
        for k in pos + kwonly:
            if k not in out:
                if k in defaults:
                    out[k] = defaults[k]
                else:
                    self.pending.append((TRUE, S('TypeError'), st.clone()))
                    self.notes.append('argument %s of %s missing at %s:%s' % (k, fv.qual, self.cur[0], self.cur[1]))
                    out[k] = tm.top('missing argument')
        if a.vararg:
            out[a.vararg.arg] = Tup(extra)
        if a.kwarg:
            out[a.kwarg.arg] = self.newdict(st, {S(k): pv for k, pv in rest.items()}, base)
        return out

    def opaque_call(self, op, fv, args, kwargs, st, skip=0):
        if fv is not None and isinstance(fv, FuncVal):
            b = self.bind(fv, args, kwargs, st)
            names = list(b)
            a = fv.node.args
            order = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
            vals = [self.freeze(b[n], st) for n in order[skip:]]
            vals = self.M.canon_args(op, vals)
            return app(op, *vals)
        return app(op, *self.M.argterms(self, args, kwargs, st))

    def settle(self, ref, st):
        """fold the additions made under computed keys into the dictionary's value"""
        c = ('coll', ref.oid)
        if c in st.heap:
            t = self.freeze(ref, st)
            del st.heap[c]
            st.heap[ref.oid] = st.heap[ref.oid].rep(items={}, base=t)

    def log_event(self, key, t, st):
        o = st.heap.get(('ev',) + key)
        segs = o.segs if o is not None else ()
        st.heap[('ev',) + key] = Obj('list', segs=segs + (t,))

    def call_func(self, fv, args, kwargs, st):
        short = fv.qual.split(':')[1] if fv.qual else fv.name
        if self.userefs and fv.qual in self.refs and self.refs[fv.qual] is not fv and not getattr(fv, 'isref', False):
            fv = self.refs[fv.qual]
        if short in self.opaque or fv.qual in self.opaque:
            key = short
            if self.retkinds.get(key) == 'call' and args and type(args[0]) is Ref and st.heap[args[0].oid].kind == 'inst':
                # which object is called matters, not what it holds by then
                o = st.heap[args[0].oid]
                args = [mk('inst', o.cls.qual, (), o.base) if o.base is not None else mk('inst', o.cls.qual, ())] + list(args[1:])
            into = None
            if key in self.sinks:
                # writes into its first array argument
                into = next((v for v in self.bind(fv, args, kwargs, st).values() if type(v) is Ref and self.is_arr(v, st)), None)
            if into is not None:
                sl = self.M.slot(self, into, st)
                t = self.opaque_call('fn:' + key, fv, [sl if x is into else x for x in args],
                                     {k: (c, sl if x is into else x) for k, (c, x) in kwargs.items()}, st, skip=0)
                self.setcontent(into, mk('fed', t), st)
            else:
                t = self.opaque_call('fn:' + key, fv, args, kwargs, st, skip=0)
            k = self.retkinds.get(key, self.retkinds.get(fv.qual))
            if k in ('event', 'call'):
                self.log_event(('call', key), t, st)
            return self.M.ret_value(self, t, k, st)
        if self.userefs and self.noleak is not None and fv.mod.name.startswith('glmtools') and not getattr(fv, 'isref', False):
            raise Unsupported('LEAK: reference run reached %s' % fv.qual)
        if self.M.model_repo(self, fv):
            r = self.M.call_repo_model(self, fv, args, kwargs, st)
            if r is not NotImplemented:
                return r
        if len(self.stack) > MAXDEPTH or self.stack.count(fv.node) > 1:
            raise Unsupported('recursion in %s' % fv.qual)
        b = self.bind(fv, args, kwargs, st)
        nf = self.fresh()
        self.frames[nf] = (fv.fid, fv.mod)
        env = dict(b)
        env['%func'] = fv
        pos = [x.arg for x in fv.node.args.posonlyargs + fv.node.args.args]
        if pos:
            env['%self'] = pos[0]
        st.envs[nf] = env
        if not hasattr(self, 'frame_node'):
            self.frame_node = {}
        self.frame_node[nf] = fv.node
        if isinstance(fv.node, ast.Lambda):
            self.stack.append(fv.node)
            try:
                r = self.ev(fv.node.body, st, fv.mod, nf)
            finally:
                self.stack.pop()
            st.envs.pop(nf, None)
            return r
        gen = func_kind(fv.node)
        if gen == 'coro' and self.run_coro:
            self.run_coro = False
        elif gen == 'coro':
            # a coroutine created elsewhere is an opaque consumer
            st.envs.pop(nf, None)
            return self.alloc(st, Obj('coro', content=mk('coroargs', fv.qual, *[self.freeze(v, st) for v in b.values()]), ch={}))
        if gen:
            st.envs[nf]['%yield'] = self.newlist(st)
        save_cur = self.cur
        self.stack.append(fv.node)
        savep = self.pending
        self.pending = []
        try:
            fall, r, ex = self.exec_block(fv.node.body, st, fv.mod, nf)
        finally:
            self.stack.pop()
            self.pending = savep
        self.cur = save_cur
        rets = []
        if r is not None:
            rets.append((fall, NONE, r))
        raises = []
        for e in ex:
            if e.kind == 'return':
                rets.append((e.cond, e.value, e.state))
            elif e.kind == 'raise':
                raises.append(e)
            else:
                raise Unsupported('stray %s' % e.kind)
        for e in raises:
            es = e.state
            self.pending.append((e.cond, e.value, es))
        if not rets:
            if not raises:
                raise Unsupported('no exit from %s' % fv.qual)
            st.envs.pop(nf, None)
            return UNDEF
        c, v, s = rets[0]
        for c2, v2, s2 in rets[1:]:
            s = self.merge(c2, s2, s)
            v = self.merge_val(c2, v2, v)
        if gen:
            v = s.envs[nf]['%yield']
        closures = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fv.node) if x is not fv.node)
        if not closures:
            s.envs.pop(nf, None)
        am = st.assume
        if s is not st:
            st.heap, st.envs = s.heap, s.envs
        return v


class Emit(ast.stmt):
    _fields = ('expr', 'val')

    def __init__(self, ref, expr, val):
        ast.stmt.__init__(self)
        self.ref = ref
        self.expr = expr
        self.val = val


ABSENT = mk('absent')
SCALAR_OPS = {'max', 'min', 'abs', 'sum', 'amin', 'amax', 'mean', 'floor', 'int', 'float', 'any', 'mod', 'pow', 'seconds'}
ARRAY_OPS = {'np.zeros', 'np.empty', 'np.ones', 'np.zeros_like', 'np.ones_like', 'np.empty_like', 'np.full', 'np.full_like', 'np.array', 'np.arange', 'np.linspace'}


def noundef(t):
    if t.op == 'undef':
        return NONE
    if t.op == 'ite' and not t.isb:
        a, b = noundef(t.args[1]), noundef(t.args[2])
        if a is not t.args[1] or b is not t.args[2]:
            return ite(t.args[0], a, b)
    return t


def dropundef(v):
    if v.op == 'ite':
        a, b = dropundef(v.args[1]), dropundef(v.args[2])
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return ite(v.args[0], a, b)
    return v


mkset = tm.mkset


def plainsegs(segs):
    for s in segs:
        if type(s) is T and s.op in ('star', 'when', 'spread'):
            return False
        if type(s) is tuple:
            return False
    return True


def sameval(a, b):
    if a is b:
        return True
    if type(a) is Ref and type(b) is Ref:
        return a.oid == b.oid
    if type(a) is Tup and type(b) is Tup:
        return len(a.segs) == len(b.segs) and all(sameval(x, y) for x, y in zip(a.segs, b.segs))
    if type(a) is IteV and type(b) is IteV:
        return a.c is b.c and sameval(a.a, b.a) and sameval(a.b, b.b)
    if type(a) is Ext and type(b) is Ext:
        return a == b
    if isinstance(a, FuncVal) and isinstance(b, FuncVal):
        return a.node is b.node and a.fid == b.fid
    return False


def segs_same(a, b):
    return len(a) == len(b) and all(sameval(x, y) for x, y in zip(a, b))


def nonneg(n):
    if n.op in ('len', 'dimsize') or (n.op == 'n' and n.args[0] >= 0):
        return n
    if nonneg_lb(n):
        return n
    return n


def any_star(n, isym, c):
    if c is FALSE:
        return FALSE
    if isym.args[0] not in c.fv:
        return b_and(gt(n, ZERO), c)
    return app('any', mk('list', *star(n, isym, (c,))))


def is_flag(t, p):
    """leaves of t are booleans or p itself"""
    if t.op == 'ite':
        return is_flag(t.args[1], p) and is_flag(t.args[2], p)
    return t.isb or t is p


def dictof(base, segs):
    l = mk('list', *segs)
    if base.op == 'dict' and not base.args:
        return app('dictof', l)
    return app('dictof', l, base)


def occurrence(t, pid):
    out = []
    seen = set()

    def g(x):
        if x in seen or not x.fv:
            return
        seen.add(x)
        if x.op == 'sym':
            c = pid.get(x.args[0])
            if c is not None and c not in out:
                out.append(c)
            return
        for y in children(x):
            g(y)
    g(t)
    return out


_fk = {}


def func_kind(node):
    r = _fk.get(id(node))
    if r is not None:
        return r[0]
    kind = None
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    ys = []
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            ys.append(x)
        stack.extend(ast.iter_child_nodes(x))
    if ys:
        kind = 'gen'
        exprs = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Expr):
                exprs.add(id(x.value))
        if any(isinstance(y, ast.Yield) and id(y) not in exprs and y.value is None for y in ys):
            kind = 'coro'
    _fk[id(node)] = (kind, node)
    return kind
