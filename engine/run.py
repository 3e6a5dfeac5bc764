"""Obligations: the repository's code and the reference code are abstractly
interpreted on the same abstract inputs; their value numbers must coincide."""
import ast
import os
import sys
import time
from . import terms as tm
from .terms import *
from .values import *
from . import interp as ip
from . import models as M

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# operations whose normal forms the engine fully controls: a difference that
# uses only these (or operations the reference uses too) is a real difference
TRUSTED = {'emptyds', 'dims', 'directory', 'n', 'c', 'b', 'poly', 'ite', 'pos', 'eq0', 'eq', 'in_', 'in', 'isnone', 'max', 'min', 'sum', 'amin', 'amax',
           'mean', 'any', 'abs', 'floor', 'int', 'float', 'np.round', 'np.ceil', 'astype', 'dt', 'list', 'tuple', 'dict', 'getitem',
           'slice', 'compress', 'flipud', 'transpose', 'star', 'lam', 'segs', 'db', 'len', 'dimsize', 'fmt', 'str', 'kw', 'upd',
           'np.zeros', 'np.zeros_like', 'np.ones_like', 'np.ones', 'np.sin', 'np.cos', 'np.tan', 'np.arctan', 'np.arcsin', 'absent', 'pow', 'mod',
           'attr', 'ext', 'func', 'cls', 'truth', 'median', 'std', 'set', 'undef', 'when', 'spread', 'in_', 'sorted', 'setitem', 'np.log10', 'np.log',
           'isnan', 'np.exp', 'ellipsis', 'none', 'unbound', 'np.unique', 'setand', 'setdiff', 'setxor', 'setexp', 'range', 'grp', 'np.abs', 'np.arange', 'np.empty', 'np.empty_like', 'self', 'repeat', 'np.repeat', 'np.tile',
           'localnow', 'm.floor', 'm.ceil', 'm.first', 'm.last', 'matplotlib.pyplot.gca', 'flat', 'invert'}


class Ob(object):
    pass


def deco(fn, name):
    for d in fn.decorator_list:
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == name:
            return d
    return None


def load_spec(path):
    src = open(path, encoding='utf8').read()
    tree = ast.parse(src, path)
    obs, refs = [], []
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            d = deco(s, 'ob')
            if d is not None:
                o = Ob()
                o.name = s.name
                o.node = s
                kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                o.props = kw.get('props') or [a.value for a in d.args]
                o.opaque = kw.get('opaque', [])
                o.sinks = kw.get('sinks', [])
                o.ret = kw.get('ret', {})
                o.refs = kw.get('refs')
                o.allow = kw.get('allow', [])
                o.budget = kw.get('budget', 400000)
                o.unordered = kw.get('unordered', False)
                o.raises = kw.get('raises', False)
                o.title = kw.get('title', s.name)
                o.path = path
                obs.append(o)
            d = deco(s, 'ref')
            if d is not None:
                refs.append((s.name, [a.value for a in d.args]))
    return tree, obs, refs


# ------------------------------------------------------------ harness builtins

def _b(name):
    def d(f):
        HB[name] = f
        return f
    return d


HB = {}


@_b('sym')
def _h_sym(I, st, args, kw):
    return tm.sym(cstr(args[0]))


@_b('arr')
def _h_arr(I, st, args, kw):
    return I.newop(st, tm.sym('!' + cstr(args[0])), arr=True)


@_b('vec')
def _h_vec(I, st, args, kw):
    """an array of one dimension"""
    return I.newop(st, tm.sym('!|' + cstr(args[0])), arr=True)


@_b('span')
def _h_span(I, st, args, kw):
    """some slice"""
    return I.newop(st, tm.sym('!/' + cstr(args[0])))


@_b('ds')
def _h_ds(I, st, args, kw):
    r = I.newop(st, tm.sym('!' + cstr(args[0])))
    st.heap[r.oid] = st.heap[r.oid].rep(cls='ds')
    return r


@_b('obj')
def _h_obj(I, st, args, kw):
    I.objs.add(tm.sym('!' + cstr(args[0])))
    return I.newop(st, tm.sym('!' + cstr(args[0])))


@_b('eff')
def _h_eff(I, st, args, kw):
    return I.newop(st, tm.sym('!' + cstr(args[0])), eff=True)


@_b('mapping')
def _h_mapping(I, st, args, kw):
    return I.newdict(st, {}, tm.sym('!' + cstr(args[0])))


@_b('storage')
def _h_storage(I, st, args, kw):
    """whether a column of a table can hold the values of a type"""
    t, name, want = args[0], cstr(args[1]), cstr(args[2]).lstrip('<')
    if type(t) is not ip.Ref or st.heap[t.oid].kind != 'op':
        return tm.top('table not allocated here')
    x = st.heap[t.oid].content
    while x.op in ('setitem', 'upd', 'rec', 'ite') and type(x.args[0]) is T and x.op != 'ite':
        x = x.args[0]
    if x.op == 'ite':
        return tm.top('table allocated in several ways')
    d = x.args[-1] if x.args else None
    if d is None or type(d) is not T or d.op != 'list':
        return tm.top('table type unknown')
    for c in d.args:
        if c.op == 'tuple' and cstr(c.args[0]) == name:
            k = cstr(c.args[1]) if cstr(c.args[1]) is not None else c.args[1].args[0] if c.args[1].op == 'dt' else None
            if k is None:
                return tm.top('column type unknown')
            k = k.lstrip('<=>|')
            if len(k) != 2 or not k[1].isdigit():
                return tm.top('column type unknown')
            ok = int(k[1]) >= int(want[1]) and (k[0] == want[0] or want[0] == 'i' and (k == 'f8' or k[0] == 'u'))
            return TRUE if ok else FALSE
    return tm.top('column unknown')


@_b('num')
def _h_num(I, st, args, kw):
    r = tm.sym('!' + cstr(args[0]))
    I.nums.add(r)
    return r


@_b('intsym')
def _h_int(I, st, args, kw):
    return tm.sym('!#' + cstr(args[0]))


@_b('strsym')
def _h_str(I, st, args, kw):
    return tm.sym('!$' + cstr(args[0]))


@_b('boolsym')
def _h_bool(I, st, args, kw):
    return tm.truth(tm.sym('!' + cstr(args[0])))


class Missing(Exception):
    pass


@_b('F')
def _h_F(I, st, args, kw):
    p = cstr(args[0])
    v = I.find(p)
    if v is None or p in I.gone:
        raise Missing(p)
    if isinstance(v, FuncVal):
        I.used.add(v.qual)
    return v


@_b('table')
def _h_table(I, st, args, kw):
    """a constant of the repository; its written-down counterpart in the reference run"""
    v = I.find(cstr(args[0]))
    if v is None:
        raise Missing(cstr(args[0]))
    return args[1] if I.userefs else v


@_b('inst')
def _h_inst(I, st, args, kw):
    p = cstr(args[0])
    c = I.find_class(p)
    if c is None:
        raise Missing(p)
    for k in kw:
        if k not in I.repo_names():
            raise Missing(p + '.' + k)
    r = I.alloc(st, Obj('inst', ch={k: v for k, (pp, v) in kw.items()}, cls=c))
    return r


@_b('observe')
def _h_observe(I, st, args, kw):
    I.log_event(('obs', cstr(args[0])), I.freeze(args[1], st), st)
    return NONE


@_b('values_of')
def _h_valuesof(I, st, args, kw):
    """array values without labels"""
    return M.val(I, args[0], st)


@_b('events')
def _h_events(I, st, args, kw):
    out = []
    for k, o in st.heap.items():
        if type(k) is tuple and k[0] == 'ev' and k[1] in ('call', 'eff', 'coro'):
            kt = k[2] if type(k[2]) is T else S(str(k[2]))
            if args and cstr(args[0]) is not None and not (kt.op == 'c' and kt.args[1] == cstr(args[0])):
                continue
            l = mk('list', *I.fsegs(o.segs, st))
            if not l.args:
                continue
            out.append(mk('tuple', kt, l))
    out.sort(key=lambda t: t.id)
    return mk('list', *out)


@_b('written')
def _h_written(I, st, args, kw):
    """the (path, dataset) pairs written to files so far, in order"""
    o = st.heap.get(('ev', 'eff', S('to_netcdf')))
    return I.newlist(st, o.segs if o is not None else ())


@_b('folders')
def _h_folders(I, st, args, kw):
    """the directories made so far"""
    o = st.heap.get(('ev', 'eff', S('makedirs')))
    return I.newlist(st, o.segs if o is not None else ())


@_b('eventset')
def _h_eventset(I, st, args, kw):
    """events without regard to order"""
    out = []
    for k, o in st.heap.items():
        if type(k) is tuple and k[0] == 'ev' and k[1] in ('call', 'eff', 'coro'):
            kt = k[2] if type(k[2]) is T else S(str(k[2]))
            if args and not (kt.op == 'c' and kt.args[1] in [cstr(a) for a in args]):
                continue
            l = sorted(I.fsegs(o.segs, st), key=lambda t: t.id)
            if l:
                out.append(mk('tuple', kt, mk('list', *l)))
    out.sort(key=lambda t: t.id)
    return mk('list', *out)


@_b('coro_run')
def _h_coro(I, st, args, kw):
    """run a coroutine function over an abstract stream of sent values"""
    f, stream = args[0], I.freeze(args[1], st)
    save = I.stream
    I.stream = stream
    I.run_coro = True
    n = len(I.pending)
    fin = []
    try:
        I.call(f, list(args[2:]), kw, st)
    finally:
        I.run_coro = False
        I.stream = save
    # the GeneratorExit that ends the receive loop is the normal end
    return NONE


@_b('assume')
def _h_assume(I, st, args, kw):
    c = I.truth(args[0], st)
    I.assume(st, c, True)
    return NONE


@_b('fresh')
def _h_fresh(I, st, args, kw):
    return I.newop(st, I.freeze(args[0], st))


@_b('asds')
def _h_asds(I, st, args, kw):
    r = args[0]
    if type(r) is T:
        r = I.newop(st, r)
    st.heap[r.oid] = st.heap[r.oid].rep(cls='ds')
    return r


@_b('fn')
def _h_fn(I, st, args, kw):
    """abstract function of its arguments"""
    return M.app('fn:' + cstr(args[0]), *M.argterms(I, args[1:], kw, st))


@_b('ufn')
def _h_ufn(I, st, args, kw):
    """uninterpreted function value"""
    name = cstr(args[0])
    return Builtin('ufn:' + name, lambda I2, st2, a, k: M.app('fn:' + name, *M.argterms(I2, a, k, st2)))


@_b('ob')
def _h_ob(I, st, args, kw):
    return Builtin('ob', lambda I2, st2, a, k: a[0])


HB['ref'] = HB['ob']


# command line programs analysed along with the package
SCRIPTS = {'make_GLM_grids': 'examples/grid/make_GLM_grids.py'}


def new_interp(specfiles, opaque=(), sinks=(), ret=None, budget=400000):
    I = ip.Interp({}, budget)
    I.used = set()
    I.gone = set()
    I.objs = set()
    I.opaque = set(opaque)
    I.sinks = set(sinks)
    I.retkinds = dict(ret or {})
    for n, f in HB.items():
        I.extra_builtins[n] = Builtin(n, f)
    I.load_tree('glmtools', os.path.join(REPO, 'glmtools'), skip=('test',))
    for name, where in SCRIPTS.items():
        path = os.path.join(REPO, where)
        if os.path.exists(path):
            I.add_module('glmtools.scripts.' + name, path)
    for p in specfiles:
        I.add_module('spec.' + os.path.basename(p)[:-3], p)
    I.exec_modules()
    for p in specfiles:
        tree, obs, refs = load_spec(p)
        env = I.state0.envs[I.modules['spec.' + os.path.basename(p)[:-3]].fid]
        for name, paths in refs:
            f = env[name]
            for path in paths:
                g = FuncVal(f.node, f.mod, f.fid, f.cls, path.split(':')[1].split('.')[-1], path, f.defaults, f.kwdefaults)
                g.kind = f.kind
                g.isref = True
                cn = path.split(':')[1].split('.')
                if len(cn) == 2:
                    g.ownercls = I.find_class(path.split(':')[0] + ':' + cn[0])
                I.refs[path] = g
    # names that moved are followed; names that are gone make rules about them undecided
    for path in list(I.refs):
        v = I.find(path)
        if v is None:
            I.gone.add(path)
        elif isinstance(v, FuncVal) and v.qual != path:
            I.refs[path].qual = v.qual
            I.refs.setdefault(v.qual, I.refs[path])
    for n in list(I.opaque) + list(I.sinks):
        v = I.find(n if ':' in n else 'glmtools:' + n)
        if v is None:
            # a name brought in from outside counts as well
            if not any(n in I.state0.envs[m.fid] for k, m in I.modules.items() if k.startswith('glmtools')):
                I.gone.add(n)
        elif ':' in n and isinstance(v, (FuncVal, ClassVal)):
            I.opaque.add(v.qual)
    return I


def gone_name(I, t):
    names = {'m.' + p.split('.')[-1].split(':')[-1]: p for p in I.gone}
    for x in ops_of(t):
        if x in names:
            return names[x]
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'getitem' and (x.args[0].op.startswith('fn:') or x.args[0].op == 'new' or x.args[0] in I.objs):
            k = cstr(x.args[1])
            if k is not None and k not in I.repo_names() and k not in I.names_in(ip.strings):
                return k
        stack.extend(children(x))
    return None


def _find_class(self, path):
    mod, _, q = path.partition(':')
    for m in [mod] + [x for x in self.modules if x.startswith('glmtools')]:
        if m in self.modules:
            self.ensure(m)
            v = self.state0.envs[self.modules[m].fid].get(q)
            if isinstance(v, ClassVal):
                return v
    return None


ip.Interp.find_class = _find_class


class Result(object):
    def __init__(self):
        self.obs = {}
        self.raises = FALSE
        self.error = None
        self.notes = []


def run_once(I, ob, userefs):
    I.userefs = userefs
    tm.UNORDERED[0] = ob.unordered
    I.noleak = True if userefs else None
    if userefs and ob.refs is not None:
        pass
    r = Result()
    mod = I.modules['spec.' + os.path.basename(ob.path)[:-3]]
    f = I.state0.envs[mod.fid][ob.name]
    st = I.state0.clone()
    I.pending = []
    I.steps = 0
    I.notes = []
    I.touched = set()
    try:
        I.call_func(f, [], {}, st)
    except Missing as e:
        r.error = 'anchor %s not found' % e
    except ip.Unsupported as e:
        r.error = 'not modelled: %s (near %s:%s)' % (e, I.cur[0], I.cur[1])
    except tm.Budget as e:
        r.error = 'budget: %s (near %s:%s)' % (e, I.cur[0] if I.cur else '', I.cur[1] if I.cur else '')
    except RecursionError:
        r.error = 'recursion limit (near %s:%s)' % (I.cur[0], I.cur[1])
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        r.error = 'engine: %s: %s (near %s:%s)' % (type(e).__name__, e, I.cur[0] if I.cur else '', I.cur[1] if I.cur else '')
    r.notes = list(I.notes)
    if r.error:
        return r
    rz = {}
    for c, v, s in I.pending:
        n = cstr(v) if type(v) is T else None
        if n == 'GeneratorExit':
            continue
        rz[n or '?'] = b_or(rz.get(n or '?', FALSE), c)
    r.raises = rz
    for k, o in st.heap.items():
        if type(k) is tuple and k[0] == 'ev' and k[1] == 'obs':
            r.obs[k[2]] = mk('list', *I.fsegs(o.segs, st))
    if I.pending and not r.obs and not ob.raises:
        r.error = 'always raises: %s' % '; '.join('%s' % show(v)[:60] for c, v, s in I.pending[:3])
        r.always = True
    r.touched = set(I.touched)
    return r


def ops_of(t):
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        out.add(x.op)
        if x.op == 'setitem' and x.args[0].op == 'np.empty' and x.args[1].op == 'slice':
            out.add('filled in parts')
        if x.op in ('tuple', 'list') and any(a.op == 'spread' and a.args[0].op == 'shape' for a in x.args):
            out.add('all dimensions')
        if x.op == 'tuple' and tm.ELL in x.args:
            out.add('ellipsis')
        if x.op == 'astype' and x.args[0].op == 'list' and any(a.op == 'star' for a in x.args[0].args) and \
                (x.args[1].op != 'dt' or x.args[1].args[0] not in ('u1', 'i1', 'b1')):
            out.add('typed list')
        stack.extend(children(x))
    return out


def lengths(t):
    if t.op == 'min':
        return set(t.args)
    return {t}


def same_length(a, b):
    """both count the steps of a loop over several sequences, which zip()
    takes to be equally long"""
    x, y = lengths(a), lengths(b)
    return (a.op == 'min' or b.op == 'min') and (x <= y or y <= x) and all(t.op in ('len', 'dimsize') for t in x | y)


ASSUMED = [False]


def diffs(a, b, out, seen, limit=6, depth=0, path=()):
    """minimal differing subterm pairs; true when the difference is accounted
    for, by a pair in out or by an assumption on lengths"""
    if a is b:
        return False
    if len(out) >= limit or (a, b) in seen:
        return True
    if same_length(a, b):
        ASSUMED[0] = True
        return True
    seen.add((a, b))
    # room the reference leaves unset is written over before it is read
    if b.op == 'np.empty' and a.op in ('np.zeros', 'np.ones') and a.args[0] is b.args[0]:
        return True
    if depth < 200 and a.op == b.op and a.op not in ('poly', 'n', 'c', 'in_', 'sym', 'db', 'fmt_'):
        ca, cb = list(children(a)), list(children(b))
        if len(ca) == len(cb) and ca and shell(a) == shell(b):
            found = False
            for x, y in zip(ca, cb):
                found = diffs(x, y, out, seen, limit, depth + 1, path + (a,)) or found
            if found:
                return True
    if a.op == b.op == 'poly':
        pairs = atom_pairs(a, b)
        if pairs:
            trial = list(out)
            if all(diffs(x, y, trial, set(seen), limit + 1, depth + 1, path + (a,)) for x, y in pairs) and len(trial) == len(out):
                return True
    out.append((a, b, path))
    return True


def atom_pairs(a, b):
    """factors in which two polynomials of one shape differ, or None"""
    x = [m for m in a.args if m not in b.args]
    y = [m for m in b.args if m not in a.args]
    if len(x) != len(y):
        return None
    pairs = []
    for (m, c), (n, d) in zip(x, y):
        p = [f for f in m if f not in n]
        q = [f for f in n if f not in m]
        if c != d or len(p) != len(q) or any(e != f for (_, e), (_, f) in zip(p, q)):
            return None
        pairs += [(s, t) for (s, _), (t, _) in zip(p, q)]
    return pairs


def components(a, b):
    """differing parts of two values built by the same plain constructors;
    such constructors are injective, so the parts can be judged apart"""
    if a is b:
        return []
    if a.op == b.op and a.op in ('list', 'tuple', 'dict', 'kw'):
        ca, cb = list(children(a)), list(children(b))
        if len(ca) == len(cb) and shell(a) == shell(b) and not any(x.op in ('spread', 'when', 'segs', 'star') for x in ca + cb):
            out = []
            for x, y in zip(ca, cb):
                out.extend(components(x, y))
            return out
    return [(a, b)]


def shell(t):
    """non-term parts of a term"""
    def f(x):
        if type(x) is T:
            return '_'
        if isinstance(x, tuple):
            return tuple(f(y) for y in x)
        return x
    return f(t.args)


def site_of(I, t, path):
    seen = set()
    stack = [t]
    n = 0
    while stack and n < 4000:
        x = stack.pop(0)
        n += 1
        if x in seen:
            continue
        seen.add(x)
        if x in I.sites and I.sites[x][0].startswith(REPO) and x.op not in ('n', 'c', 'b'):
            return I.sites[x]
        stack.extend(children(x))
        if n > 40:
            break
    for p in reversed(path):
        if p in I.sites and I.sites[p][0].startswith(REPO):
            return I.sites[p]
    return None


def attrs_of(t):
    """names of the attributes of each class of object in a term"""
    out, seen, stack = {}, set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'inst':
            out.setdefault(x.args[0], set()).update(n for n, v in x.args[1])
        stack.extend(children(x))
    return out


def keep_attrs(t, keep, memo):
    if t in memo:
        return memo[t]
    x = t
    if t.op == 'inst':
        x = mk('inst', t.args[0], tuple((n, v) for n, v in t.args[1] if n in keep.get(t.args[0], ())), *t.args[2:])
    f = lambda y: keep_attrs(y, keep, memo)
    r = x
    if any(f(y) is not y for y in children(x)):
        r = tm._map(x, f, memo)
    memo[t] = r
    return r


def shared_attrs(a, b):
    """both terms with objects cut down to the attributes both sides give
    them, and whether the first lacks attributes of the second: what an object
    holds beyond that is its own business"""
    x, y = attrs_of(a), attrs_of(b)
    if not x or not y:
        return a, b, False
    keep = {c: x[c] & y[c] for c in x if c in y}
    if all(x[c] == keep[c] == y[c] for c in keep):
        return a, b, False
    memo = {}
    return keep_attrs(a, keep, memo), keep_attrs(b, keep, memo), any(y[c] - keep[c] for c in keep)


FOREIGN_BAD = {'top', 'unbound', 'cycle'}


class Outcome(object):
    pass


def check_ob(ob, specfiles, verbose=False):
    t0 = time.time()
    o = Outcome()
    o.ob = ob
    o.status = 'holds'
    o.findings = []
    o.undecided = []
    o.labels = 0
    o.nodes = 0
    o.held = 0
    I = new_interp(specfiles, ob.opaque, ob.sinks, ob.ret, ob.budget)
    lost = [n for n in list(ob.opaque) + list(ob.sinks) if n in I.gone]
    if lost:
        o.status = 'undecided'
        o.undecided.append(('*', 'anchor %s not found' % lost[0]))
        o.used, o.touched, o.notes, o.spec_notes = set(), set(), [], []
        o.wall = time.time() - t0
        return o
    impl = run_once(I, ob, False)
    o.used = set(I.used)
    o.touched = set(x for x in I.touched if x[0].startswith(REPO))
    sites = dict(I.sites)
    I2 = new_interp(specfiles, ob.opaque, ob.sinks, ob.ret, ob.budget)
    spec = run_once(I2, ob, True)
    o.notes = impl.notes
    o.spec_notes = spec.notes
    I.sites = sites
    if spec.error:
        o.status = 'specerror'
        o.undecided.append(('*', 'reference: ' + spec.error))
        o.wall = time.time() - t0
        return o
    if impl.error:
        if getattr(impl, 'always', False):
            o.status = 'violated'
            o.findings.append(dict(label='*', what='every execution raises: ' + impl.error + ' ' + '; '.join(impl.notes[:3]), site=None, impl='', spec=''))
        else:
            o.status = 'undecided'
            o.undecided.append(('*', impl.error))
        o.wall = time.time() - t0
        return o
    labels = list(spec.obs)
    loose = set(impl.obs) - set(spec.obs)
    pairs = []
    for l in labels:
        if l not in impl.obs and loose:
            o.labels += 1
            o.undecided.append((l, 'observed under a name that is not known in advance'))
            continue
        pairs.append((l, impl.obs.get(l, mk('list')), spec.obs[l]))
    for n in sorted(set(impl.raises) | set(spec.raises)):
        a, b = impl.raises.get(n, FALSE), spec.raises.get(n, FALSE)
        if a is not b:
            pairs.append(('raises ' + n, a, b))
        else:
            o.labels += 1
    known = set()
    for b in spec.obs.values():
        known |= ops_of(b)
    for l, a, b in pairs:
        o.labels += 1
        o.nodes += a.size if a.size < 10**6 else 10**6
        if a is b and not b.top:
            o.held += 1
            continue
        if gone_name(I2, b):
            o.undecided.append((l, 'anchor %s not found' % gone_name(I2, b)))
            continue
        if b.top:
            o.undecided.append((l, 'reference result has an unmodelled part: ' + tops(b)))
            continue
        a, b, lacks = shared_attrs(a, b)
        if lacks:
            o.undecided.append((l, 'an object holds its data under other names'))
        ds_ = []
        for ca, cb in components(a, b):
            if ca.top:
                o.undecided.append((l, 'unmodelled part: ' + tops(ca)))
                continue
            foreign = sorted(x for x in ops_of(ca) - known if x not in TRUSTED)
            if 'tdiv' in foreign and 'int' not in known:
                # a whole number of periods where none was counted
                foreign.remove('tdiv')
            if foreign and not written_into(ca, cb):
                o.undecided.append((l, 'result uses operations the rule does not relate: ' + ', '.join(foreign[:6])))
                if verbose:
                    o.foreign = (ca, cb)
                continue
            n = len(ds_)
            ASSUMED[0] = False
            diffs(ca, cb, ds_, set())
            if len(ds_) == n and n < 6 and not ASSUMED[0]:
                continue
            if len(ds_) == n and n < 6:
                o.undecided.append((l, 'the same only if sequences that are stepped through together are equally long'))
        for x, y, path in ds_[:4]:
            s = site_of(I, x, path)
            o.findings.append(dict(label=l, what='value differs from the reference', site=s, impl=show(x)[:600], spec=show(y)[:600]))
    if o.findings:
        o.status = 'violated'
    elif o.undecided:
        o.status = 'undecided'
    o.wall = time.time() - t0
    return o


def written_into(a, b):
    """whether an input that should come back as it was has been given variables it did not have"""
    if b.op != 'in_':
        return False
    while a.op in ('updated', 'setitem', 'upd') and type(a.args[0]) is T:
        if a.op == 'setitem' and cstr(a.args[1]) is None:
            return False
        a = a.args[0]
        if a is b:
            return True
    return False


def tops(t):
    out = []
    seen = set()
    stack = [t]
    while stack and len(out) < 3:
        x = stack.pop()
        if x in seen or not x.top:
            continue
        seen.add(x)
        if x.op == 'top':
            out.append(str(x.args[0]) if x.args else 'top')
        stack.extend(children(x))
    return '; '.join(out) or 'top'
