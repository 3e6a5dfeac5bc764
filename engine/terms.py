"""Value-number terms.

Hash-consed, normalised value descriptions used as the abstract domain.  Two
expressions get the same term exactly when the normal forms agree: arithmetic is
kept as polynomials with rational coefficients, conditions as ordered decision
diagrams over atomic facts, sequences as lists of segments, text as pieces.
Nothing here evaluates program code.
"""
from functools import reduce
from fractions import Fraction

_tab = {}
_byid = []


class T(object):
    __slots__ = ('op', 'args', 'id', 'fv', 'top', 'size', 'isb')

    def __repr__(self):
        return show(self, 6)


class Budget(Exception):
    pass


BOOL_OPS = {'pos', 'eq0', 'eq', 'in', 'isnone', 'any', 'all', 'truth', 'isnan',
            'isinstance', 'hasattr', 'callable', 'isclose', 'np.allclose', 'np.isclose',
            'm.startswith', 'm.endswith', 'os.path.exists', 'np.isfinite', 'np.isin',
            'subset', 'is', 'os.path.isdir', 'os.path.isfile', 'm.isdigit', 'bseg'}


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.id = len(_byid)
    fv = frozenset()
    top = op == 'top'
    size = 1
    if op == 'sym':
        fv = frozenset((args[0],))
    elif op == 'poly':
        for mono, c in args:
            for a, e in mono:
                if a.fv:
                    fv = fv | a.fv
                top = top or a.top
                size += a.size
    else:
        for a in args:
            if type(a) is T:
                if a.fv:
                    fv = fv | a.fv
                top = top or a.top
                size += a.size
            elif type(a) is tuple:
                for b in _tuplechildren(a):
                    if b.fv:
                        fv = fv | b.fv
                    top = top or b.top
                    size += b.size
    t.fv = fv
    t.top = top
    t.size = size if size < 10 ** 9 else 10 ** 9
    if op == 'b' or op in BOOL_OPS:
        t.isb = True
    elif op == 'ite':
        t.isb = args[1].isb and args[2].isb
    else:
        t.isb = False
    _tab[key] = t
    _byid.append(t)
    return t


TRUE = mk('b', True)
FALSE = mk('b', False)
NONE = mk('c', 'NoneType', None)
ELL = mk('c', 'ellipsis', '...')
PI = mk('c', 'real', 'pi')
SEC = mk('c', 'unit', 'second')
NAN = mk('c', 'float', 'nan')
INF = mk('c', 'float', 'inf')


def N(v):
    if v is True or v is False:
        v = int(v)
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float('inf'), float('-inf')):
            return INF if v > 0 else neg(INF)
        v = Fraction(repr(v))
    return mk('n', Fraction(v))


ZERO = N(0)
ONE = N(1)


def S(s):
    return mk('c', 'str', s)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if v is Ellipsis:
        return ELL
    if isinstance(v, (int, float)):
        return N(v)
    if isinstance(v, complex):
        return mk('c', 'complex', repr(v))
    if isinstance(v, str):
        return S(v)
    if isinstance(v, bytes):
        return mk('c', 'bytes', v)
    if isinstance(v, tuple):
        return mk('tuple', *[const(x) for x in v])
    if isinstance(v, list):
        return mk('list', *[const(x) for x in v])
    raise TypeError(v)


def is_const(t):
    return t.op in ('n', 'c', 'b')


def pyval(t):
    """Python value of a constant term, or raises KeyError."""
    if t.op == 'n':
        v = t.args[0]
        return int(v) if v.denominator == 1 else float(v)
    if t.op == 'b':
        return t.args[0]
    if t.op == 'c' and t.args[0] in ('str', 'bytes', 'NoneType'):
        return t.args[1]
    raise KeyError(t.op)


def is_str(t):
    return (t.op == 'c' and t.args[0] == 'str') or t.op == 'str'


def cstr(t):
    """constant str value or None"""
    if t.op == 'c' and t.args[0] == 'str':
        return t.args[1]
    return None


def cint(t):
    if t.op == 'n' and t.args[0].denominator == 1:
        return int(t.args[0])
    if t.op == 'b':
        return int(t.args[0])
    return None


def top(reason):
    return mk('top', reason)


def sym(name):
    return mk('in_', name)


_fresh = [0]


def freshsym(tag='i'):
    _fresh[0] += 1
    return mk('sym', _fresh[0], tag)


# ---------------------------------------------------------------- booleans / ite

_ite = {}


def b_root(t):
    if t.op == 'ite':
        return t.args[0]
    if t.isb and t.op != 'b':
        return t
    return None


def cof(t, atom, val):
    if t.op == 'ite':
        if t.args[0] is atom:
            return t.args[1] if val else t.args[2]
        return t
    if t is atom:
        return TRUE if val else FALSE
    return t


def _any_over(t, atom, depth=8):
    if t.op == 'ite' and depth:
        if t.args[0].op == 'any' and t.args[0].args[0] is atom:
            return t.args[0]
        return _any_over(t.args[1], atom, depth - 1) or _any_over(t.args[2], atom, depth - 1)
    if t.op == 'any' and t.args[0] is atom:
        return t
    return None


_bounded = {}


def bounded(atom, t, val):
    """t where p > 0 holds (or does not), with the other bounds on p this settles"""
    if t.op not in ('ite', 'pos', 'eq0'):
        return t
    key = (atom, t, val)
    r = _bounded.get(key)
    if r is not None:
        return r
    r = t
    p = atom.args[0]
    for a in (atoms_of(t) if t.op == 'ite' else (t,)):
        if a.op == 'eq0':
            q = a.args[0]
            c, d = cnum(sub(q, p)), cnum(add(q, p))
            if val and (c is not None and c >= 0 or d is not None and d <= 0):
                r = restrict(r, a, False)
            elif not val and (c is not None and c < 0 or d is not None and d > 0):
                r = restrict(r, a, False)
            continue
        if a.op != 'pos' or a is atom:
            continue
        q = a.args[0]
        if val:
            c = cnum(add(p, q))
            if c is not None and c <= 0:
                r = restrict(r, a, False)
            c = cnum(sub(q, p))
            if c is not None and c >= 0:
                r = restrict(r, a, True)
        else:
            c = cnum(sub(p, q))
            if c is not None and c >= 0:
                r = restrict(r, a, False)
    _bounded[key] = r
    return r


def pinned(atom, t):
    """t where q == 0 holds, with the bounds on q this settles"""
    if t.op not in ('ite', 'pos', 'eq0'):
        return t
    q = atom.args[0]
    for a in (atoms_of(t) if t.op == 'ite' else (t,)):
        if a.op in ('pos', 'eq0') and a is not atom:
            p = a.args[0]
            c = cnum(sub(p, q))
            if c is None:
                c = cnum(add(p, q))
            if c is not None:
                t = restrict(t, a, c > 0 if a.op == 'pos' else c == 0)
    return t


def cnum(t):
    return t.args[0] if t.op == 'n' else None


def node(atom, hi, lo):
    if hi is lo:
        return hi
    if hi.op in ('ite', 'any') and atom.op != 'any':
        # where an element of a mask is set, some element is
        a = _any_over(hi, atom)
        if a is not None:
            hi = restrict(hi, a, True)
            if hi is lo:
                return hi
    if atom.op == 'pos':
        hi, lo = bounded(atom, hi, True), bounded(atom, lo, False)
        if hi is lo:
            return hi
    if atom.op == 'eq0':
        hi = pinned(atom, hi)
        if hi is lo:
            return hi
    if hi is TRUE and lo is FALSE:
        return atom
    if atom.op == 'any':
        # a masked update guarded by "any element of the mask"
        m = atom.args[0]
        r = b_root(m)
        if m is r and restrict(hi, m, False) is restrict(lo, m, False) and not _mentions(lo, m):
            return hi
    if atom.op == 'pos' and not hi.isb and not lo.isb and hi.op != 'ite' and lo.op != 'ite':
        mm = _minmax(atom, hi, lo)
        if mm is not None:
            return mm
    return mk('ite', atom, hi, lo)


def _mentions(t, atom, depth=0):
    if t.op == 'ite':
        return t.args[0] is atom or _mentions(t.args[1], atom) or _mentions(t.args[2], atom)
    return t is atom


def _isnum(t):
    return t.op in ('n', 'poly') or t.op not in ('c', 'b', 'tuple', 'list', 'dict', 'str', 'upd',
                                                 'rec', 'inst', 'ite', 'top', 'set', 'lam', 'star')


def _minmax(atom, hi, lo):
    if not (_isnum(hi) and _isnum(lo)):
        return None
    p = to_poly(atom.args[0])
    d = to_poly(sub(hi, lo))
    if set(p) != set(d) or not p:
        return None
    k0 = None
    for m in p:
        k = d[m] / p[m]
        if k0 is None:
            k0 = k
        elif k != k0:
            return None
    return maxmin('max' if k0 > 0 else 'min', [hi, lo])


def restrict(t, atom, val):
    """Fix one atom everywhere in the decision structure of t."""
    if t.op == 'ite':
        a, h, l = t.args
        if a is atom:
            return restrict(h if val else l, atom, val)
        return ite(a, restrict(h, atom, val), restrict(l, atom, val))
    if t is atom:
        return TRUE if val else FALSE
    return t


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (c, a, b)
    r = _ite.get(key)
    if r is not None:
        return r
    at = b_root(c)
    if at is None:
        c = truth(c)
        return ite(c, a, b)
    if a.op == b.op == 'list' and not (a.args and b.args):
        return mk('list', *(when(c, a.args) if a.args else when(b_not(c), b.args)))
    for x in (a, b):
        rr = b_root(x)
        if rr is not None and rr.id < at.id:
            at = rr
    hi = ite(cof(c, at, True), cof(a, at, True), cof(b, at, True))
    lo = ite(cof(c, at, False), cof(a, at, False), cof(b, at, False))
    r = node(at, hi, lo)
    _ite[key] = r
    return r


def truth(t):
    if t.isb:
        return t
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op == 'n':
        return TRUE if t.args[0] != 0 else FALSE
    if t.op == 'c':
        if t.args[0] in ('NoneType',):
            return FALSE
        if t.args[0] in ('str', 'bytes'):
            return TRUE if t.args[1] else FALSE
        return TRUE
    if t.op in ('tuple', 'list', 'dict', 'set'):
        if all(a.op not in ('star', 'when', 'spread') for a in t.args if type(a) is T):
            return TRUE if t.args else FALSE
        return gt(length(t), ZERO)
    if t.op in ('len', 'poly', 'floor', 'dimsize', 'int') or t.op in ('in_', 'sym', 'db') and is_int(t):
        return b_not(eq(t, ZERO))
    if t.op in ('inst', 'lam', 'func'):
        return TRUE
    if t.op in ('np.ones', 'np.ones_like'):
        return TRUE
    if t.op in ('np.zeros', 'np.zeros_like'):
        return FALSE
    return mk('truth', t)


def b_not(t):
    return ite(truth(t), FALSE, TRUE)


def b_and(a, b):
    return ite(truth(a), truth(b), FALSE)


def b_or(a, b):
    return ite(truth(a), TRUE, truth(b))


def atoms_of(t, acc=None, limit=64):
    if acc is None:
        acc = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            acc.add(x.args[0])
            st.append(x.args[1])
            st.append(x.args[2])
    return acc


# ---------------------------------------------------------------- lifting

NOLIFT = {'tuple', 'list', 'dict', 'lam', 'star', 'when', 'spread', 'segs', 'ev', 'upd', 'rec',
          'inst', 'ite', 'c', 'n', 'b', 'sym', 'db', 'in_', 'top', 'any', 'all', 'func', 'set',
          'setitem', 'loc', 'fold', 'obj', 'dstar', 'dset', 'last', 'scatter', 'bseg', 'foldres', 'expand'}
MAXATOMS = 9
_app = {}


def app(op, *args):
    key = (op, args)
    r = _app.get(key)
    if r is not None:
        return r
    r = _app_(op, args)
    _app[key] = r
    return r


def _has_ite(a):
    if type(a) is not T:
        return None
    if a.op == 'ite':
        return a
    if a.op in ('tuple', 'list'):
        for x in a.args:
            if type(x) is T and x.op == 'ite':
                return x
    return None


def _cofarg(a, at, v):
    if type(a) is not T:
        return a
    if a.op == 'ite':
        return cof(a, at, v)
    if a.op in ('tuple', 'list'):
        return mk(a.op, *[cof(x, at, v) if type(x) is T and x.op == 'ite' else x for x in a.args])
    return a


def _app_(op, args):
    if op not in NOLIFT:
        its = None
        for a in args:
            h = _has_ite(a)
            if h is not None:
                if its is None:
                    its = set()
                atoms_of(h, its)
                if a.op in ('tuple', 'list'):
                    for x in a.args:
                        if type(x) is T and x.op == 'ite':
                            atoms_of(x, its)
        if its and len(its) <= MAXATOMS:
            at = min(its, key=lambda x: x.id)
            hi = app(op, *[_cofarg(a, at, True) for a in args])
            lo = app(op, *[_cofarg(a, at, False) for a in args])
            return ite(at, hi, lo)
    elif op in REDUCE and args[0].op == 'ite':
        # a choice made once for the whole array
        at = b_root(args[0])
        if at is not None and at.op == 'in' and cstr(at.args[0]) is not None:
            return ite(at, app(op, cof(args[0], at, True), *args[1:]), app(op, cof(args[0], at, False), *args[1:]))
    f = SMART.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


REDUCE = {'sum', 'amin', 'amax', 'mean'}
SMART = {}


def smart(name):
    def d(f):
        SMART[name] = f
        return f
    return d


# ---------------------------------------------------------------- arithmetic

def to_poly(t):
    if t.op == 'n':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'b':
        return {(): Fraction(1)} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def _mkey(m):
    return (len(m), tuple((a.id, e) for a, e in m))


def from_poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return mk('n', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _mkey(mc[0]))
    return mk('poly', *items)


def _mono_mul(a, b):
    d = {}
    for x, e in a:
        d[x] = d.get(x, 0) + e
    for x, e in b:
        d[x] = d.get(x, 0) + e
    extra = []
    out = []
    roots = {}
    for x, e in d.items():
        if x.op == 'pow' and x.args[1].op == 'n' and e:
            roots.setdefault(x.args[0], []).append(x)
    for base, xs in roots.items():
        if len(xs) > 1:
            q = sum(x.args[1].args[0] * d.pop(x) for x in xs)
            if q:
                extra.append((base, q))
    for x, e in d.items():
        if e == 0:
            continue
        if x.op == 'grp' and e > 0 and e == int(e):
            extra.append((x.args[0], int(e)))
            continue
        if x.op == 'pow' and x.args[1].op == 'n':
            q = x.args[1].args[0] * e
            if q.denominator == 1:
                extra.append((x.args[0], int(q)))
                continue
        out.append((x, e))
    out.sort(key=lambda xe: xe[0].id)
    return tuple(out), extra


def add(a, b):
    return app('add', a, b)


@smart('add')
def _add(a, b):
    if a.op in ('list', 'tuple') or b.op in ('list', 'tuple'):
        if a.op in ('list', 'tuple') and b.op in ('list', 'tuple'):
            return mk(a.op, *(a.args + b.args))
        k = a.op if a.op in ('list', 'tuple') else b.op
        sa = a.args if a.op in ('list', 'tuple') else (spread(a),)
        sb = b.args if b.op in ('list', 'tuple') else (spread(b),)
        return mk(k, *(sa + sb))
    if is_str(a) or is_str(b):
        return concat([a, b])
    if a.top or b.top:
        if a.op == 'top':
            return a
        if b.op == 'top':
            return b
    pa, pb = to_poly(a), to_poly(b)
    d = dict(pa)
    for m, c in pb.items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def neg(a):
    return mul(N(-1), a)


def sub(a, b):
    return add(a, mul(N(-1), b))


def _uncast(p):
    m = {a: a.args[0] for mono, _ in p.args for a, e in mono
         if a.op == 'astype' and a.args[0].op == 'range' and a.args[1].args[0] == 'f8'}
    return replaced(p, m) if m else p


def mul(a, b):
    return app('mul', a, b)


MAXPOLY = 400


@smart('mul')
def _mul(a, b):
    if a.op == 'top':
        return a
    if b.op == 'top':
        return b
    for x, y in ((a, b), (b, a)):
        if x.op in ('list', 'tuple') or is_str(x):
            n = cint(y)
            if n is not None and x.op in ('list', 'tuple') and 0 <= n <= 64:
                return mk(x.op, *(x.args * n))
            return mk('repeat', x, y)
    # a product of real numbers is real whatever the type of the counter in it
    if a.op == 'poly' and not is_int(b):
        a = _uncast(a)
    if b.op == 'poly' and not is_int(a):
        b = _uncast(b)
    if a.op == 'astype' and a.args[0].op == 'range' and a.args[1].args[0] == 'f8' and not is_int(b):
        a = a.args[0]
    if b.op == 'astype' and b.args[0].op == 'range' and b.args[1].args[0] == 'f8' and not is_int(a):
        b = b.args[0]
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > MAXPOLY:
        if len(pa) > 1:
            pa = {((mk('grp', a), 1),): Fraction(1)}
        if len(pb) > 1:
            pb = {((mk('grp', b), 1),): Fraction(1)}
        d = {}
        for m, c in pa.items():
            for n, e in pb.items():
                mm = tuple(sorted(m + n, key=lambda xe: xe[0].id))
                d[mm] = d.get(mm, 0) + c * e
        return from_poly(d)
    # cancel a denominator that equals the other factor
    for x, px, y, py in ((a, pa, b, pb), (b, pb, a, pa)):
        if len(px) > 1 and len(py) == 1:
            (m, c), = py.items()
            for i, (at, e) in enumerate(m):
                if at.op == 'grp' and e < 0:
                    k = _ratio(to_poly(at.args[0]), px)
                    if k is not None:
                        rest = list(m)
                        rest[i] = (at, e + 1)
                        mm = tuple((u, v) for u, v in rest if v)
                        return from_poly({mm: c * k})
    d = {}
    acc = None
    for m, c in pa.items():
        for n, e in pb.items():
            mm, extra = _mono_mul(m, n)
            if extra:
                t = from_poly({mm: c * e})
                for base, k in extra:
                    t = mul(t, power(base, N(k)))
                acc = t if acc is None else add(acc, t)
            else:
                d[mm] = d.get(mm, 0) + c * e
    r = from_poly(d)
    if acc is not None:
        r = add(r, acc)
    return r


def _ratio(p, q):
    """q == k*p -> k"""
    if len(p) != len(q):
        return None
    k0 = None
    for m in p:
        if m not in q:
            return None
        k = q[m] / p[m]
        if k0 is None:
            k0 = k
        elif k0 != k:
            return None
    return k0


def power(a, b):
    return app('pow', a, b)


@smart('pow')
def _pow(a, b):
    if a.op == 'top':
        return a
    if b.op == 'n':
        e = b.args[0]
        if e == 0:
            return ONE
        if e == 1:
            return a
        p = to_poly(a)
        if len(p) == 0:
            return ZERO if e > 0 else mk('pow', a, b)
        if len(p) == 1:
            (m, c), = p.items()
            if e.denominator == 1:
                t = mk('n', c ** int(e)) if c != 1 else ONE
                for at, k in m:
                    if at.op == 'pow' and at.args[1].op == 'n':
                        t = mul(t, power(at.args[0], mk('n', at.args[1].args[0] * k * e)))
                    else:
                        t = mul(t, from_poly({((at, k * int(e)),): Fraction(1)}))
                return t
            if m == ():
                if e == Fraction(1, 2):
                    from math import isqrt
                    if c >= 0:
                        n, d = isqrt(c.numerator), isqrt(c.denominator)
                        if n * n == c.numerator and d * d == c.denominator:
                            return mk('n', Fraction(n, d))
            return mk('pow', a, b)
        if e.denominator == 1:
            e = int(e)
            if 2 <= e <= 4 and len(p) ** e <= MAXPOLY:
                t = a
                for _ in range(e - 1):
                    t = mul(t, a)
                return t
            if e < 0:
                # 1/(a x + a y) is 1/a 1/(x + y)
                common = set(next(iter(p)))
                for m in p:
                    common &= set(m)
                if common:
                    k = from_poly({tuple(sorted(common, key=lambda f: f[0].id)): Fraction(1)})
                    r = from_poly({tuple(f for f in m if f not in common): c for m, c in p.items()})
                    return mul(power(k, b), power(r, b))
            # normalise sign/scale of the group
            items = sorted(p.items(), key=lambda mc: _mkey(mc[0]))
            lead = items[0][1]
            g = from_poly({m: c / lead for m, c in p.items()})
            if g.op == 'poly' and len(g.args) > 1:
                g = mk('grp', g)
            return mul(mk('n', lead ** e), from_poly({((g, e),): Fraction(1)}))
        return mk('pow', a, b)
    return mk('pow', a, b)


SMART['grp'] = lambda t: (mk('grp', t) if t.op == 'poly' and len(t.args) > 1 else t)


def div(a, b):
    if a.op == 'sum' and len(a.args) == 1 and (
            b.op == 'size' and b.args[0] is a.args[0] or b.op == 'len' and a.args[0].op == 'getitem' and a.args[0].args[1] is b.args[0] or
            b.op != 'n' and app('len', a.args[0]) is b):
        return app('mean', a.args[0])
    if a.op == 'sum' and len(a.args) == 2 and a.args[1] is mk('kw', 'axis', ZERO) and b.op != 'n' and app('len', a.args[0]) is b:
        return app('mean', *a.args)
    return mul(a, power(b, N(-1)))


@smart('floor')
def _floor(a):
    if a.op == 'n':
        return N(a.args[0].__floor__())
    if is_int(a):
        return a
    if a.op == 'poly' and len(a.args) == 1 and a.args[0][1].numerator == 1:
        # whole parts of whole parts
        (m, c), = a.args
        f = [x for x, e in m if x.op == 'floor' and e == 1]
        if len(f) == 1 and all(x is f[0] or e < 0 and is_int(x) and nonneg_atom(x) for x, e in m):
            return app('floor', div(mul(a, f[0].args[0]), f[0]))
    return mk('floor', a)


def floordiv(a, b):
    return app('floor', div(a, b))


@smart('mod')
def _mod(a, b):
    if a.op == 'n' and b.op == 'n' and b.args[0] != 0:
        return mk('n', a.args[0] % b.args[0])
    if is_str(a):
        return mk('strmod', a, b)
    return mk('mod', a, b)


@smart('abs')
def _abs(a):
    if a.op == 'list' and concrete(a.args):
        return mk('list', *[app('abs', x) for x in a.args])
    if a.op == 'n':
        return mk('n', abs(a.args[0]))
    if a.op == 'abs' or a.op in NONNEG:
        return a
    p = to_poly(a)
    items = sorted(p.items(), key=lambda mc: _mkey(mc[0]))
    lead = items[0][1]
    if len(items) == 1:
        m, c = items[0]
        if c != 1:
            return mul(mk('n', abs(c)), app('abs', from_poly({m: Fraction(1)})))
        return mk('abs', a)
    if lead < 0:
        a = neg(a)
    # |c (x + y)| is c |x + y| where c is not negative
    out = {f for f in items[0][0] if f[0].op == 'abs' or f[0].op in NONNEG}
    for m, c in items[1:]:
        out &= set(m)
    if out:
        k = from_poly({tuple(sorted(out, key=lambda f: f[0].id)): Fraction(1)})
        return mul(k, app('abs', mul(a, power(k, N(-1)))))
    return mk('abs', a)


def _odd(op):
    def f(a):
        p = to_poly(a)
        items = sorted(p.items(), key=lambda mc: _mkey(mc[0]))
        if items and items[0][1] < 0:
            return neg(mk(op, neg(a)))
        return mk(op, a)
    SMART[op] = f


def _even(op):
    def f(a):
        p = to_poly(a)
        items = sorted(p.items(), key=lambda mc: _mkey(mc[0]))
        if items and items[0][1] < 0:
            return mk(op, neg(a))
        return mk(op, a)
    SMART[op] = f


for _n in ('np.sin', 'np.tan', 'np.arcsin', 'np.arctan'):
    _odd(_n)
_even('np.cos')


@smart('int')
def _int(a):
    if a.isb:
        return ite(a, ONE, ZERO)
    if a.op == 'n':
        v = a.args[0]
        return N(int(v))
    if is_int(a):
        return a
    if nonneg_lb(a):
        return app('floor', a)
    return mk('int', a)


@smart('float')
def _float(a):
    if a.op in ('n', 'poly', 'len', 'float', 'int', 'sum', 'amin', 'amax', 'mean'):
        return a
    return mk('float', a)


NONNEG = {'len', 'dimsize', 'count'}
INTOPS = {'len', 'dimsize', 'count', 'int', 'idx', 'floor'}


def each(t, f):
    """t is a sum over a loop of terms that all satisfy f"""
    if t.op != 'sum' or len(t.args) != 1 or t.args[0].op != 'list' or not t.args[0].args:
        return False
    for s in t.args[0].args:
        while s.op == 'star':
            b = s.args[1].args[0].args
            if len(b) != 1:
                return False
            s = b[0]
        if not all(x.op not in ('when', 'spread', 'star') and f(x) for x in ([s] if s.op != 'ite' else _leaves(s))):
            return False
    return True


def _leaves(t):
    return _leaves(t.args[1]) + _leaves(t.args[2]) if t.op == 'ite' else [t]


def nonneg_atom(a):
    return a.op in NONNEG or a.op == 'abs' or a.op == 'floor' and nonneg_lb(a.args[0]) or a.op == 'sum' and each(a, lambda x: x.op != 'ite' and nonneg_lb(x))


def is_int(t):
    if t.op in INTOPS:
        return True
    if t.op == 'sum':
        return each(t, is_int)
    if t.op in ('amin', 'amax') and len(t.args) == 1:
        return is_int(t.args[0])
    if t.op == 'getitem' and cstr(t.args[1]) is not None:
        return cstr(t.args[1]).endswith(('_idx', '_id'))
    if t.op == 'n':
        return t.args[0].denominator == 1
    if t.op == 'sym':
        return t.args[1] == 'i'
    if t.op == 'in_':
        return type(t.args[0]) is str and t.args[0].startswith('!#')
    if t.op == 'db':
        return True
    if t.op == 'poly':
        for m, c in t.args:
            if c.denominator != 1:
                return False
            for a, e in m:
                if e < 0 or not is_int(a):
                    return False
        return True
    return False


def nonneg_lb(t):
    """polynomial with nonneg atoms and nonneg coefs"""
    for m, c in to_poly(t).items():
        if c < 0:
            return False
        for a, e in m:
            if not nonneg_atom(a):
                return False
    return True


def gt(a, b):
    return app('pos', sub(a, b))


@smart('pos')
def _pos(p):
    if p.op == 'top':
        return p
    if p.op == 'n':
        return TRUE if p.args[0] > 0 else FALSE
    if p.op in ('c', 'b'):
        if p.op == 'b':
            return p
        if p is INF:
            return TRUE
        return mk('pos', p)
    if p.op in ('min', 'max') and all(x.op == 'n' or x.op == 'dimsize' or x.op == 'len' for x in p.args):
        return reduce(b_and if p.op == 'min' else b_or, [app('pos', x) for x in p.args])
    d = to_poly(p)
    items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
    lead = items[-1][1]
    if len(items) == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        at = items[0][0][0][0]
        if at.op == 'sum' and lead > 0 and at.args and type(at.args[0]) is T and at.args[0].isb:
            return app('any', at.args[0])
        if at is INF:
            return TRUE if lead > 0 else FALSE
    if is_int(p):
        if lead < 0:
            return b_not(app('pos', sub(ONE, p)))
        if nonneg_lb(p) and d.get((), 0) > 0:
            return TRUE
        return mk('pos', p)
    sc = abs(lead)
    if sc != 1:
        p = from_poly({m: c / sc for m, c in d.items()})
    return mk('pos', p)


def eq(a, b):
    return app('eq_', a, b)


@smart('eq_')
def _eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'top':
        return a
    if b.op == 'top':
        return b
    if a.isb and b.op == 'b':
        return a if b is TRUE else b_not(a)
    if b.isb and a.op == 'b':
        return b if a is TRUE else b_not(b)
    if is_const(a) and is_const(b):
        if a.op == 'b' and b.op == 'n':
            return TRUE if int(a.args[0]) == b.args[0] else FALSE
        if b.op == 'b' and a.op == 'n':
            return TRUE if int(b.args[0]) == a.args[0] else FALSE
        return FALSE
    if a is NONE or b is NONE:
        x = b if a is NONE else a
        return isnone(x)
    if a.op in ('n', 'poly') or b.op in ('n', 'poly'):
        if a.op in ('c', 'str', 'tuple', 'list', 'dict') or b.op in ('c', 'str', 'tuple', 'list', 'dict'):
            if PI not in (a, b) and SEC not in (a, b):
                return FALSE
        return app('eq0', sub(a, b))
    if a.op in ('tuple', 'list') and b.op == a.op:
        if all(x.op not in ('star', 'when', 'spread') for x in a.args + b.args):
            if len(a.args) != len(b.args):
                return FALSE
            r = TRUE
            for x, y in zip(a.args, b.args):
                r = b_and(r, eq(x, y))
            return r
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


SMART['eq'] = lambda a, b: _eq(a, b)


@smart('eq0')
def _eq0(p):
    if p.op == 'n':
        return TRUE if p.args[0] == 0 else FALSE
    if p.op == 'min' and all(nonneg_lb(x) for x in p.args):
        return reduce(b_or, [app('eq0', x) for x in p.args])
    if p.op == 'max' and all(nonneg_lb(x) for x in p.args):
        return reduce(b_and, [app('eq0', x) for x in p.args])
    d = to_poly(p)
    items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
    lead = items[-1][1]
    if lead != 1:
        p = from_poly({m: c / lead for m, c in d.items()})
        d = to_poly(p)
    if nonneg_lb(p):
        if d.get((), 0) > 0:
            return FALSE
        return b_not(app('pos', p))
    return mk('eq0', p)


@smart('isnone')
def _isnone(a):
    if a is NONE:
        return TRUE
    if a.op in ('in_', 'getitem', 'attr', 'kwget', 'mget', 'sym', 'db', 'top'):
        if a.op == 'top':
            return a
        if a.op == 'in_' and a.args[0].startswith('!'):
            return FALSE
        return mk('isnone', a)
    if a.op == 'call' or a.op.startswith('fn:') or a.op.startswith('m.') or a.op.startswith('ext:'):
        return mk('isnone', a)
    return FALSE


def isnone(a):
    return app('isnone', a)


def maxmin(kind, xs):
    flat = []
    for x in xs:
        if x.op == kind:
            flat.extend(x.args)
        else:
            flat.append(x)
    best = None
    out = set()
    for x in flat:
        if x.op == 'n':
            v = x.args[0]
            best = v if best is None else (max if kind == 'max' else min)(best, v)
        else:
            out.add(x)
    # drop an operand that differs from another by a constant
    lst = sorted(out, key=lambda x: x.id)
    keep = []
    for x in lst:
        drop = False
        for y in lst:
            if y is x:
                continue
            d = sub(x, y) if x.op != 'ite' and y.op != 'ite' else None
            if d is not None and d.op == 'n' and ((d.args[0] < 0) if kind == 'max' else (d.args[0] > 0)):
                drop = True
        if not drop:
            keep.append(x)
    if best is not None:
        if best <= 0 and kind == 'max' and len(keep) == 1 and nonneg_lb(keep[0]):
            pass
        else:
            keep.append(mk('n', best))
    keep.sort(key=lambda x: x.id)
    if len(keep) == 1:
        return keep[0]
    return mk(kind, *keep)


SMART['max'] = lambda *xs: maxmin('max', xs)
SMART['min'] = lambda *xs: maxmin('min', xs)


# ---------------------------------------------------------------- text

def concat(parts):
    return app('str', *parts)


@smart('str')
def _str(*parts):
    out = []
    flat = []
    todo = list(reversed(parts))
    while todo:
        x = todo.pop()
        if x.op == 'fmt' and cstr(x.args[1]) == '':
            # inside a text only a text can stand unformatted
            x = x.args[0]
            if x.op != 'str':
                flat.append(x)
                continue
        if x.op == 'str':
            todo.extend(reversed(x.args))
        else:
            flat.append(x)
    if flat:
        for x in flat:
            if cstr(x) is not None and out and cstr(out[-1]) is not None:
                out[-1] = S(cstr(out[-1]) + cstr(x))
            elif cstr(x) == '':
                continue
            else:
                out.append(x)
    if not out:
        return S('')
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    return mk('str', *out)


def fmt(v, spec):
    if v.op == 'b' and v.args and isinstance(v.args[0], bool) and spec == '':
        return S(str(v.args[0]))
    c = cstr(v)
    if spec == '' and c is not None:
        return v
    if v.op == 'n' and spec == '' and v.args[0].denominator == 1:
        return S(str(int(v.args[0])))
    if is_const(v) and spec:
        try:
            return S(format(pyval(v), spec))
        except Exception:
            pass
    return app('fmt', v, S(spec))


# ---------------------------------------------------------------- sequences

def spread(t):
    return app('spread_', t)


@smart('spread_')
def _spread(t):
    return mk('spread', t)


def spread_segs(t):
    """Segments obtained by splicing sequence t into another sequence."""
    if t.op in ('list', 'tuple', 'set'):
        return t.args
    if t.op == 'ite':
        a, h, l = t.args
        sh, sl = spread_segs(h), spread_segs(l)
        return when(a, sh) + when(b_not(a), sl)
    if t is NONE:
        return ()
    if t.op == 'range' and cint(t.args[0]) is not None and cint(t.args[0]) <= 64:
        return tuple(N(i) for i in range(cint(t.args[0])))
    if t.op == 'repeat' and t.args[0].op in ('list', 'tuple') and nonneg_lb(t.args[1]) and maxdb(t) < 0:
        return star(t.args[1], freshsym(), t.args[0].args)
    return (mk('spread', t),)


def when(c, segs):
    if c is TRUE or not segs:
        return tuple(segs)
    if c is FALSE:
        return ()
    out = []
    for s in segs:
        if s.op == 'when':
            out.extend(when(b_and(c, s.args[0]), s.args[1:]))
        else:
            if out and out[-1].op == 'when' and out[-1].args[0] is c:
                out[-1] = mk('when', c, *(out[-1].args[1:] + (s,)))
            else:
                out.append(mk('when', c, s))
    return tuple(out)


def norm_segs(segs):
    """merge complementary whens of one value into a conditional item"""
    out = []
    for s in segs:
        if (s.op == 'when' and out and out[-1].op == 'when' and len(s.args) == 2 and
                len(out[-1].args) == 2 and b_not(s.args[0]) is out[-1].args[0] and
                s.args[1].op not in ('star', 'spread') and
                out[-1].args[1].op not in ('star', 'spread')):
            out[-1] = ite(s.args[0], s.args[1], out[-1].args[1])
        elif s.op == 'when':
            out.extend(when(s.args[0], s.args[1:]))
            # alternatives that exclude each other are kept in one order
            k = len(out) - 1
            while k > 0 and out[k - 1].op == 'when' and out[k].op == 'when' and out[k].args[0].id < out[k - 1].args[0].id \
                    and b_and(out[k].args[0], out[k - 1].args[0]) is FALSE:
                out[k], out[k - 1] = out[k - 1], out[k]
                k -= 1
        else:
            out.append(s)
    return tuple(out)


UNORDERED = [False]


def chosen(c, x, dom):
    """The members x of dom for which c holds, where c asks only which sets x is in."""
    if c is TRUE:
        return dom
    if c is FALSE:
        return mkset(())
    a, h, l = c.args if c.op == 'ite' else (c, TRUE, FALSE)
    if a.op != 'in' or a.args[0] is not x or any(f in a.args[1].fv for f in x.fv if f not in dom.fv):
        return None
    h, l = chosen(h, x, dom), chosen(l, x, dom)
    if h is None or l is None:
        return None
    s = asset(a.args[1])
    h, l = (app('setand', h, s) if h.args or h.op != 'set' else h), (app('setdiff', l, s) if l.args or l.op != 'set' else l)
    if h.op == 'set' and not h.args:
        return l
    if l.op == 'set' and not l.args:
        return h
    return app('setor', h, l)


def star(n, symb, segs):
    """Repeat segs for symb in range(n)."""
    segs = norm_segs(segs)
    if not segs:
        return ()
    if len(segs) == 1 and segs[0].op == 'when' and symb.args[0] not in segs[0].args[0].fv:
        return when(segs[0].args[0], star(n, symb, segs[0].args[1:]))
    if len(segs) == 1 and segs[0].op == 'when' and len(segs[0].args) == 2:
        # [x for x in A if x in B] where the order of the result is free
        c, x = segs[0].args
        if x.op == 'getitem' and x.args[1] is symb and symb.args[0] not in x.args[0].fv and length(x.args[0]) is n:
            free = UNORDERED[0] or x.args[0].op in SETS
            r = chosen(c, x, asset(x.args[0])) if free or x.args[0].op == 'np.unique' else None
            if r is not None and r is not asset(x.args[0]):
                return (mk('spread', r if free else app('np.unique', mk('list', mk('spread', r)))),)
    k = cint(n)
    if k is not None and 0 <= k <= 64:
        out = []
        for i in range(k):
            for s in segs:
                out.append(subst(s, {symb: N(i)}))
        return norm_segs(out)
    # for k in range(a * b): k // b, k % b
    if n.op == 'poly' and len(n.args) == 1 and n.args[0][1] == 1 and sum(e for x, e in n.args[0][0]) == 2 and all(e > 0 for x, e in n.args[0][0]):
        fs = [x for x, e in n.args[0][0] for _ in range(e)]
        for a, b in (fs, fs[::-1]):
            i, j = freshsym(), freshsym()
            q, r = floordiv(symb, b), app('mod', symb, b)
            body = [replaced(s, {q: i, r: j}) for s in segs]
            if not any(symb.args[0] in s.fv for s in body):
                return star(a, i, star(b, j, body))
    # eta: for i in range(len(x)): x[i]
    if len(segs) == 1:
        s = segs[0]
        if s.op == 'getitem' and s.args[1] is symb and symb.args[0] not in s.args[0].fv and length(s.args[0]) is n:
            return spread_segs(s.args[0])
        if s is symb:
            return (mk('spread', mk('range', n)),)
    body = abstract(mk('segs', *segs), symb)
    return (mk('star', n, mk('lam', body)),)


def asset(t):
    if t.op in SETS:
        return t
    return mkset(spread_segs(t))


def mkset(segs):
    out = []
    seen = set()
    for s in segs:
        while s.op == 'spread' and s.args[0].op in ('np.unique', 'sorted') and len(s.args[0].args) == 1:
            s = mk('spread', s.args[0].args[0])
        for x in (s.args[0].args if s.op == 'spread' and s.args[0].op in ('list', 'tuple', 'set') else (s,)):
            if x not in seen:
                seen.add(x)
                out.append(x)
    if len(out) == 1 and out[0].op == 'spread' and out[0].args[0].op in SETS[1:]:
        return out[0].args[0]
    if len(out) == 1 and out[0].op == 'star':
        # {x for x in A if x in B}
        i = freshsym()
        b = open_lam(out[0].args[1], i).args
        if len(b) == 1 and b[0].op == 'when' and len(b[0].args) == 2:
            save = UNORDERED[0]
            UNORDERED[0] = True
            try:
                r = star(out[0].args[0], i, b)
            finally:
                UNORDERED[0] = save
            if len(r) == 1 and r[0].op == 'spread':
                return r[0].args[0]
    out.sort(key=lambda x: x.id)
    return mk('set', *out)


SETS = ('set', 'setand', 'setdiff', 'setxor', 'setexp')


def set_atoms(t, out):
    """The sets that t is made of, and t as a function of membership of each."""
    if t.op == 'setand':
        f, g = set_atoms(t.args[0], out), set_atoms(t.args[1], out)
        return lambda m: f(m) and g(m)
    if t.op == 'setdiff':
        f, g = set_atoms(t.args[0], out), set_atoms(t.args[1], out)
        return lambda m: f(m) and not g(m)
    if t.op == 'setxor':
        f, g = set_atoms(t.args[0], out), set_atoms(t.args[1], out)
        return lambda m: f(m) != g(m)
    if t.op == 'setexp':
        fs = [set_atoms(x, out) for x in t.args[1:]]
        bits = cstr(t.args[0])
        return lambda m: bits[sum(1 << i for i, f in enumerate(fs) if f(m))] == '1'
    if t.op == 'set' and len(t.args) > 1:
        fs = [set_atoms(mkset((x,)), out) for x in t.args]
        return lambda m: any(f(m) for f in fs)
    if t.op == 'set' and not t.args:
        return lambda m: False
    if t not in out:
        out.append(t)
    return lambda m: t in m


def setalg(kind, a, b):
    a, b = asset(a), asset(b)
    out = []
    f, g = set_atoms(a, out), set_atoms(b, out)
    if len(out) > 6:
        return mk('set' + kind, *(sorted((a, b), key=lambda x: x.id) if kind in ('and', 'xor') else (a, b))) if kind != 'or' else \
            mkset((mk('spread', a), mk('spread', b)))
    h = {'and': lambda m: f(m) and g(m), 'diff': lambda m: f(m) and not g(m), 'xor': lambda m: f(m) != g(m), 'or': lambda m: f(m) or g(m)}[kind]
    out.sort(key=lambda x: x.id)
    subsets = lambda xs: [frozenset(x for i, x in enumerate(xs) if k >> i & 1) for k in range(1 << len(xs))]
    deps = [x for x in out if any(h(m) != h(m | {x}) for m in subsets(out))]
    bits = ''.join('1' if h(m) else '0' for m in subsets(deps))
    if not deps:
        return mk('set')
    if len(deps) == 1:
        return deps[0]
    if len(deps) == 2:
        p, q = deps
        if bits == '0001':
            return mk('setand', p, q)
        if bits == '0100':
            return mk('setdiff', p, q)
        if bits == '0010':
            return mk('setdiff', q, p)
        if bits == '0110':
            return mk('setxor', p, q)
    if '0' not in bits[1:]:
        return mkset([mk('spread', x) for x in deps])
    return mk('setexp', S(bits), *deps)


@smart('setand')
def _setand(a, b):
    return setalg('and', a, b)


@smart('setdiff')
def _setdiff(a, b):
    return setalg('diff', a, b)


@smart('setxor')
def _setxor(a, b):
    return setalg('xor', a, b)


@smart('setor')
def _setor(a, b):
    return setalg('or', a, b)


@smart('setexp')
def _setexp(bits, *deps):
    return mk('setexp', bits, *deps)


NOLIFT.update(('setand', 'setdiff', 'setxor', 'setor', 'setexp'))


def lamify(symb, t):
    return mk('lam', abstract(t, symb))


def open_lam(lam, v):
    return subst_db(lam.args[0], 0, v)


_LEN = {}


def length(t):
    return app('len', t)


@smart('len')
def _len(t):
    if t.op == 'set' and len(t.args) == 1 and t.args[0].op == 'spread':
        return app('len', app('np.unique', t.args[0].args[0]))
    if t.op in ('list', 'tuple'):
        tot = ZERO
        for s in t.args:
            tot = add(tot, seg_len(s))
        return tot
    if t.op == 'c' and t.args[0] == 'str':
        return N(len(t.args[1]))
    if t.op == 'dict':
        return N(len(t.args))
    if t.op == 'range':
        return t.args[0]
    if t.op == 'getitem':
        k = t.args[1]
        if k.op == 'slice':
            r = slice_len(t.args[0], k)
            if r is not None:
                return r
        if k.op in ('list', 'range'):
            return length(k)
        if k.op == 'tuple' and k.args and k.args[0].op == 'slice':
            r = slice_len(t.args[0], k.args[0])
            if r is not None:
                return r
    if t.op == 'getitem' and t.args[0].op == 'm.groupby' and len(t.args[0].args) == 1 and cstr(t.args[1]) == 'groups':
        return length(app('np.unique', t.args[0].args[0]))
    if t.op in ('m.copy', 'flipud', 'abs', 'np.cumsum', 'sortedl', 'reversed', 'm.keys', 'm.items', 'm.values', 'np.zeros_like', 'np.empty_like', 'np.ones_like', 'astype', 'np.sort', 'keys'):
        if t.args:
            return length(t.args[0])
    if t.op in ('np.zeros', 'np.ones', 'np.empty', 'np.arange') and t.args:
        a = t.args[0]
        if t.op == 'np.arange':
            return mk('len', t)
        if a.op == 'tuple' and a.args and a.args[0].op not in ('star', 'when', 'spread'):
            return a.args[0]
        if is_int(a) or a.op == 'n':
            return a
    if t.op == 'setitem' or t.op == 'stores':
        return length(t.args[0])
    if t.op == 'poly' and onedim(t):
        ns = set(length(a) for mono, c in t.args for a, e in mono if onedim(a))
        if len(ns) == 1:
            return ns.pop()
    return mk('len', t)


def onedim(t):
    """an array known to have one dimension"""
    if t.op == 'in_':
        return type(t.args[0]) is str and t.args[0].startswith('!|')
    if t.op in ('flipud', 'astype', 'abs', 'm.copy'):
        return onedim(t.args[0])
    if t.op == 'getitem':
        k = t.args[1]
        return onedim(t.args[0]) and (k.op == 'slice' or k.op == 'in_' and type(k.args[0]) is str and k.args[0].startswith('!/'))
    if t.op == 'poly':
        found = False
        for mono, c in t.args:
            for a, e in mono:
                if onedim(a):
                    found = True
                elif not (a.op == 'in_' and type(a.args[0]) is str and a.args[0].startswith('!')) and a is not PI:
                    return False
        return found
    return False


def slice_len(x, sl):
    a, b, c = sl.args
    if c is not NONE and c is not ONE:
        return None
    if a is NONE and b is NONE:
        return length(x)
    ai = 0 if a is NONE else cint(a)
    if b is NONE:
        if ai is not None and ai >= 0:
            return sub(length(x), N(ai))
        return None
    bi = cint(b)
    if bi is not None and ai is not None:
        if bi < 0 <= ai:
            return sub(length(x), N(ai - bi))
        if 0 <= bi <= ai:
            return ZERO
    return None


def seg_len(s):
    if s.op == 'spread':
        return length(s.args[0])
    if s.op == 'when':
        tot = ZERO
        for x in s.args[1:]:
            tot = add(tot, seg_len(x))
        return ite(s.args[0], tot, ZERO)
    if s.op == 'star':
        i = freshsym()
        body = open_lam(s.args[1], i)
        tot = ZERO
        simple = True
        for x in body.args:
            l = seg_len(x)
            tot = add(tot, l)
        if i.args[0] not in tot.fv:
            return mul(s.args[0], tot)
        return mk('sum', mk('list', *star(s.args[0], i, (tot,))))
    return ONE


def concrete(segs):
    return all(s.op not in ('star', 'when', 'spread') for s in segs)


# ---------------------------------------------------------------- getitem

def getitem(x, k):
    if k.isb and k.op != 'b' and x.op not in ('list', 'tuple', 'dict', 'top'):
        return compress(x, k)
    return app('getitem', x, full_key(x, k))


def full_key(x, k):
    """x[..., i] with the slices the dots stand for, where the dimensions of x are known"""
    if k.op == 'tuple' and ELL in k.args:
        while x.op == 'setitem':
            x = x.args[0]
        if x.op in ('np.zeros', 'np.ones', 'np.empty') and x.args[0].op == 'tuple' and concrete(x.args[0].args):
            i = k.args.index(ELL)
            return mk('tuple', *(k.args[:i] + (ALL,) * (len(x.args[0].args) - len(k.args) + 1) + k.args[i + 1:]))
    return k


def neg_index(n, k):
    return k + n if k < 0 else k


@smart('getitem')
def _getitem(x, k):
    if x.op == 'unzip' and k.op == 'n' and int(k.args[0]) >= 0:
        # one element of each row
        l = x.args[0]
        i = freshsym()
        if len(l.args) == 1 and l.args[0].op == 'spread':
            return mk('list', *star(length(l.args[0].args[0]), i, (app('getitem', app('getitem', l.args[0].args[0], i), k),)))
        if len(l.args) == 1 and l.args[0].op == 'star':
            body = open_lam(l.args[0].args[1], i).args
            if len(body) == 1 and body[0].op not in ('star', 'when', 'spread'):
                return mk('list', *star(l.args[0].args[0], i, (app('getitem', body[0], k),)))
    if x.op == 'top':
        return x
    if k.op == 'top':
        return k
    op = x.op
    if op in ('list', 'tuple'):
        ki = cint(k) if k.op == 'n' else None
        if ki is not None:
            segs = x.args
            if ki >= 0:
                pre = segs[:ki + 1]
                if len(pre) > ki and concrete(pre):
                    return pre[ki]
            else:
                post = segs[ki:]
                if len(post) == -ki and concrete(post):
                    return post[0]
        if k.op == 'slice' and concrete(x.args):
            try:
                a, b, c = [None if z is NONE else pyval(z) for z in k.args]
                return mk(op, *x.args[slice(a, b, c)])
            except KeyError:
                pass
        if len(x.args) == 1 and x.args[0].op == 'star':
            st = x.args[0]
            i = freshsym()
            body = open_lam(st.args[1], i)
            if len(body.args) == 1 and body.args[0].op not in ('star', 'when', 'spread') and (k.op != 'slice' and k.op != 'n' and is_int(k)):
                return subst(body.args[0], {i: k})
        if len(x.args) == 1 and x.args[0].op == 'spread':
            return getitem(x.args[0].args[0], k)
        if 2 <= len(x.args) <= 8 and all(a.op == 'when' for a in x.args):
            # one of several whole alternatives
            cs = [a.args[0] for a in x.args]
            if b_not(cs[0]) is cs[1] if len(cs) == 2 else \
                    all(b_and(c, d) is FALSE for i, c in enumerate(cs) for d in cs[:i]) and reduce(b_or, cs) is TRUE:
                r = getitem(mk(op, *x.args[-1].args[1:]), k)
                for a in x.args[-2::-1]:
                    r = ite(a.args[0], getitem(mk(op, *a.args[1:]), k), r)
                return r
    if op == 'dict':
        for kk, v in x.args:
            if kk is k:
                return v
        if not x.args:
            return mk('undef')
    if op == 'undef':
        return x
    if op in ('np.zeros', 'np.zeros_like') and cstr(k) is not None and len(x.args) == 2 and x.args[1].op == 'list':
        # a column of an empty table
        return ZERO
    if op == 'rec':
        for kk, v in x.args[1]:
            if kk is k:
                return v
        if k.op == 'c':
            return getitem(x.args[0], k)
    if op == 'setitem':
        if x.args[1] is k:
            return x.args[2]
        if disjoint(x.args[1], k):
            return getitem(x.args[0], k)
    if op == 'range' and is_int(k):
        return k
    if op == 'arange3':
        a, b, c = x.args
        if is_int(k):
            return add(a, mul(k, c))
    if op == 'drop1':
        if is_int(k):
            return getitem(x.args[0], add(k, ONE))
    if op == 'sorted' and len(x.args) == 1 and k.op == 'n' and k.args[0] in (0, -1):
        return app('amin' if k.args[0] == 0 else 'amax', x.args[0])
    if k.op == 'slice' and k.args[0] is NONE and k.args[1] is NONE and k.args[2] is N(-1) and op not in ('list', 'tuple', 'range') and not is_str(x):
        return app('flipud', x)
    if k.op == 'tuple' and k.args and k.args[0].op == 'slice' and k.args[0].args[0] is NONE and k.args[0].args[1] is NONE and k.args[0].args[2] is N(-1) \
            and all(y.op == 'slice' and y.args[0] is NONE and y.args[1] is NONE and y.args[2] in (NONE, ONE) for y in k.args[1:]):
        return app('flipud', x)
    if op == 'getitem' and is_int(k) and x.args[1].op == 'slice':
        a, b, c = x.args[1].args
        if c in (NONE, ONE) and (k.op == 'sym' or k.op == 'db' or (k.op == 'n' and k.args[0] >= 0)):
            ai = 0 if a is NONE else cint(a)
            if ai is not None and ai >= 0:
                bi = cint(b) if b is not NONE and b.op == 'n' else None
                if not (k.op == 'n' and b is not NONE) or bi is not None and ai + k.args[0] < bi:
                    return getitem(x.args[0], add(k, N(ai)))
            elif k.op == 'n' and ai is not None and b is NONE and k.args[0] < -ai:
                return getitem(x.args[0], add(k, N(ai)))
            elif k.op == 'n' and ai is None and few(x) is not x:
                x = few(x)
                if k.args[0] < len(x.args):
                    return x.args[int(k.args[0])]
    if op == 'upd':
        for kk, v in x.args[1]:
            if kk[0] == 'item' and kk[1] is k:
                return v
        if k.op == 'c':
            return getitem(x.args[0], k)
    if k.op == 'slice' and k.args == (NONE, NONE, NONE):
        return x
    if k.op == 'slice' and cint(k.args[0]) == 0:
        return getitem(x, mk('slice', NONE, k.args[1], k.args[2]))
    if k.op == 'slice' and k.args[2] is ONE:
        return getitem(x, mk('slice', k.args[0], k.args[1], NONE))
    if op == 'attr' and x.args[1] == 'shape' and cint(k) == 0 and k.op == 'n':
        return length(x.args[0])
    if op == 'compress_' :
        pass
    if k.isb:
        return compress(x, k)
    if op == 'attr' and x.args[1] == 'attrs' and k.op == 'c' and x.args[0].op in ('getitem', 'poly', 'ite', 'setitem'):
        # the attributes of a variable read like its members
        return getitem(x.args[0], k)
    if op == 'm.split' and len(x.args) > 1 and x.args[1] is S(':') and k.op == 'n':
        if len(x.args) == 2 and k.args[0] == -1:
            return mk('after last', x.args[0], x.args[1])
        if len(x.args) == 3 and x.args[2] is ONE and k.args[0] in (1, -1):
            return mk('after first', x.args[0], x.args[1])
    if k.op == 'where' and len(k.args) == 1 and k.args[0].isb and op not in ('dict', 'rec', 'upd'):
        return compress(x, k.args[0])
    return mk('getitem', x, k)


def disjoint(k1, k2):
    """index keys that can never address the same element"""
    if k1.op == 'n' and k2.op == 'n':
        return k1 is not k2 and (k1.args[0] >= 0) == (k2.args[0] >= 0)
    if k1.op == 'c' and k2.op == 'c':
        return k1 is not k2
    if k1.op == 'tuple' and k2.op == 'tuple' and len(k1.args) == len(k2.args):
        return any(disjoint(a, b) for a, b in zip(k1.args, k2.args))
    return False


def compress(x, m):
    """x[m] for a boolean mask m"""
    return app('compress', x, m)


@smart('compress')
def _compress(x, m):
    if x.op in ('n', 'b', 'c') or m is TRUE:
        return x
    return mk('compress', x, m)


NOLIFT.add('compress')
NOLIFT.add('where')

ELEMENTWISE = {'abs', 'max', 'min', 'pos', 'eq0', 'floor', 'isnan', 'np.sqrt', 'np.sin', 'np.cos',
               'np.tan', 'np.arctan', 'np.arcsin', 'astype', 'np.fabs', 'np.round', 'np.ceil',
               'np.exp', 'np.log', 'pow', 'grp', 'np.minimum', 'np.maximum'}


def expand(m, t):
    """value stored at the true positions of mask m when t is assigned there"""
    ok = [True]
    r = _expand(m, t, ok, {})
    if ok[0]:
        return r
    return mk('expand', m, t)


def _expand(m, t, ok, memo):
    if t in memo:
        return memo[t]
    if t.op == 'compress':
        if t.args[1] is m:
            r = t.args[0]
        else:
            ok[0] = False
            r = t
    elif t.op in ('n', 'b', 'c'):
        r = t
    elif t.op == 'poly':
        r = ZERO
        for mono, c in t.args:
            q = mk('n', c)
            for a, e in mono:
                q = mul(q, power(_expand(m, a, ok, memo), N(e)))
            r = add(r, q)
    elif t.op == 'call' and len(t.args) == 2 and t.args[0].op.startswith('scipy.interpolate.'):
        r = mk('call', t.args[0], _expand(m, t.args[1], ok, memo))
    elif t.op in ELEMENTWISE:
        r = app(t.op, *[_expand(m, a, ok, memo) if type(a) is T else a for a in t.args])
    elif t.op == 'ite':
        r = ite(_expand(m, t.args[0], ok, memo), _expand(m, t.args[1], ok, memo), _expand(m, t.args[2], ok, memo))
    elif _scalarish(t):
        r = t
    else:
        ok[0] = False
        r = t
    memo[t] = r
    return r


def _scalarish(t):
    return not _contains_op(t, 'compress')


def _contains_op(t, op, memo=None):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == op:
            return True
        st.extend(children(x))
    return False


def children(t):
    if t.op == 'poly':
        for m, c in t.args:
            for a, e in m:
                yield a
    else:
        for a in t.args:
            if type(a) is T:
                yield a
            elif type(a) is tuple:
                for b in _tuplechildren(a):
                    yield b


def _tuplechildren(a):
    for x in a:
        if type(x) is T:
            yield x
        elif type(x) is tuple:
            for y in _tuplechildren(x):
                yield y


def two_masks(x, k, v):
    # cells of one list of places, written where a mask holds and then where it does not
    x0, k0, v0 = x.args
    if k0.op != 'tuple' or len(k0.args) != 2 or any(t.op != 'compress' for t in k.args + k0.args):
        return None
    m = k.args[0].args[1]
    n = k0.args[0].args[1]
    if any(t.args[1] is not m for t in k.args) or any(t.args[1] is not n for t in k0.args) or b_not(m) is not n:
        return None
    if any(s.args[0] is not t.args[0] for s, t in zip(k.args, k0.args)):
        return None
    a, b = expand(m, v), expand(n, v0)
    if a.op == 'expand' or b.op == 'expand':
        return None
    return setitem(x0, mk('tuple', *[t.args[0] for t in k.args]), ite(m, a, b))


ALL = mk('slice', NONE, NONE, NONE)


def short_key(k):
    # x[i, :, :] is x[i]
    while k.op == 'tuple' and len(k.args) > 1 and k.args[-1].op == 'slice' and all(a is NONE for a in k.args[-1].args):
        k = mk('tuple', *k.args[:-1]) if len(k.args) > 2 else k.args[0]
    return k


def listed(x):
    """a + b * [0, 1, 2] is [a, a + b, a + 2 b]"""
    ls = {}
    for m, c in x.args:
        for a, e in m:
            l = a.args[0] if a.op == 'astype' else a
            if l.op == 'list' and concrete(l.args) and all(y.op == 'n' for y in l.args):
                ls[a] = l.args
            elif not (a.op in ('in_', 'abs', 'floor', 'int')):
                return x
    if not ls or len(set(len(l) for l in ls.values())) != 1:
        return x
    return mk('list', *(replaced(x, {a: l[i] for a, l in ls.items()}) for i in range(len(next(iter(ls.values()))))))


def few(x):
    """x[i:i+2] is [x[i], x[i+1]]"""
    y, k = x.args
    if k.op == 'slice' and k.args[2] is NONE and k.args[1] is not NONE:
        a = ZERO if k.args[0] is NONE else k.args[0]
        n = cint(sub(k.args[1], a))
        if n is not None and 0 < n <= 4 and is_int(a) and (nonneg_lb(a) or a.op in ('sym', 'db')):
            return mk('list', *(getitem(y, add(a, N(i))) for i in range(n)))
    return x


def setitem(x, k, v):
    k = short_key(k)
    """content of x after x[k] = v"""
    if x.op == 'top':
        return x
    if k.op == 'ite' and not k.isb:
        a = k.args[0]
        return ite(a, setitem(restrict(x, a, True), k.args[1], restrict(v, a, True)),
                   setitem(restrict(x, a, False), k.args[2], restrict(v, a, False)))
    if k.op == 'tuple' and x.op == 'setitem' and len(k.args) == 2:
        r = two_masks(x, k, v)
        if r is not None:
            return r
    if k.isb:
        if x.op == 'np.zeros_like' and len(x.args) == 1:
            x = ZERO
        return ite(k, expand(k, v), x)
    if cstr(k) is not None:
        if x.op == 'ite':
            a = x.args[0]
            return ite(a, setitem(x.args[1], k, restrict(v, a, True)), setitem(x.args[2], k, restrict(v, a, False)))
        base, items = (x.args[0], dict(x.args[1])) if x.op == 'rec' else (x, {})
        if v.op == 'np.zeros_like':
            v = ZERO
        items[k] = v
        return mk('rec', base, tuple(sorted(items.items(), key=lambda kv: kv[0].args[1])))
    if k is ELL or (k.op == 'slice' and k.args == (NONE, NONE, NONE)):
        if v.op in ('n', 'b', 'c'):
            return mk('full', mk('attr', x, 'shape') if x.op not in ('full', 'setitem') else x, v)
        return v
    if x.op == 'poly' and k.op in ('poly', 'len', 'in_', 'sym'):
        # a place counted from the front that is known to be counted from the end too
        n = [app('len', a) for m, _ in x.args for a, _ in m if a.op == 'range']
        e = cint(sub(k, n[0])) if len(n) == 1 else None
        if e is not None and e < 0:
            k = N(e)
    if x.op == 'getitem' and k.op == 'n' and cint(k) is not None:
        x = few(x)
    if x.op == 'poly' and k.op == 'n' and cint(k) is not None:
        x = listed(x)
    if x.op == 'list' and concrete(x.args) and cint(k) is not None and k.op == 'n':
        i = cint(k)
        if -len(x.args) <= i < len(x.args):
            l = list(x.args)
            l[i] = v
            return mk('list', *l)
    if x.op == 'ite' and not x.isb and len(atoms_of(x)) <= 6:
        a = x.args[0]
        return ite(a, setitem(x.args[1], k, restrict(v, a, True)), setitem(x.args[2], k, restrict(v, a, False)))
    # push a disjoint store below the ones already there, in key order
    if x.op == 'setitem':
        if x.args[1] is k:
            return setitem(x.args[0], k, v)
        if disjoint(x.args[1], k) and x.args[1].id > k.id:
            return mk('setitem', setitem(x.args[0], k, v), x.args[1], x.args[2])
    # storing back what is there
    if v.op == 'getitem' and v.args[0] is x and v.args[1] is k:
        return x
    return mk('setitem', x, k, v)


# ---------------------------------------------------------------- dims / dataset terms

SMART['any'] = lambda m: (m if m.op == 'b' else (mk('any', m)))


# ---------------------------------------------------------------- substitution

def rebuild(op, args):
    if op == 'poly':
        r = ZERO
        for mono, c in args:
            q = mk('n', c)
            for a, e in mono:
                q = mul(q, power(a, N(e)) if e != 1 else a)
            r = add(r, q)
        return r
    if op == 'ite':
        return ite(args[0], args[1], args[2])
    if op in ('pos',):
        return app('pos', args[0])
    if op == 'truth':
        return truth(args[0])
    if op == 'setitem':
        return setitem(*args)
    if op == 'spread':
        s = spread_segs(args[0])
        if len(s) == 1:
            return s[0]
        return mk('segs', *s)
    if op == 'when':
        s = when(truth(args[0]), _flat(args[1:]))
        if len(s) == 1:
            return s[0]
        return mk('segs', *s)
    if op == 'star':
        k = cint(args[0])
        if k is not None and 0 <= k <= 64:
            out = []
            for i in range(k):
                b = open_lam(args[1], N(i))
                out.extend(b.args)
            s = norm_segs(tuple(out))
            return s[0] if len(s) == 1 else mk('segs', *s)
        return mk('star', *args)
    if op in ('list', 'tuple'):
        return mk(op, *norm_segs(_flat(args)))
    if op == 'segs':
        return mk('segs', *norm_segs(_flat(args)))
    if op in ('max', 'min'):
        return maxmin(op, args)
    return app(op, *args)


def _flat(args):
    out = []
    for a in args:
        if type(a) is T and a.op == 'segs':
            out.extend(a.args)
        else:
            out.append(a)
    return tuple(out)


def _map(t, f, memo):
    """rebuild t with f applied to its children"""
    if t.op == 'poly':
        args = tuple((tuple((f(a), e) for a, e in m), c) for m, c in t.args)
        return rebuild('poly', args)
    args = tuple(f(a) if type(a) is T else (_maptuple(a, f) if type(a) is tuple else a) for a in t.args)
    return rebuild(t.op, args)


def _maptuple(a, f):
    return tuple(f(x) if type(x) is T else (_maptuple(x, f) if type(x) is tuple else x) for x in a)


def replaced(t, m):
    memo = dict(m)

    def f(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = _map(x, f, memo) if x.args else x
        return r
    return f(t)


def subst(t, m):
    """replace sym terms"""
    ids = frozenset(s.args[0] for s in m)
    memo = {}

    def f(x):
        if not (x.fv & ids):
            return x
        r = memo.get(x)
        if r is None:
            if x.op == 'sym':
                r = m[x]
            else:
                r = _map(x, f, memo)
            memo[x] = r
        return r
    return f(t)


def abstract(t, symb, depth=0):
    memo = {}

    def g(x, d):
        if symb.args[0] not in x.fv:
            return x
        key = (x, d)
        r = memo.get(key)
        if r is None:
            if x is symb:
                r = mk('db', d)
            elif x.op == 'lam':
                r = mk('lam', g(x.args[0], d + 1))
            else:
                r = _map(x, lambda y: g(y, d), memo)
            memo[key] = r
        return r
    return g(t, depth)


_hasdb = {}


def maxdb(t):
    """largest free de Bruijn index in t, or -1"""
    r = _hasdb.get(t)
    if r is not None:
        return r
    if t.op == 'db':
        r = t.args[0]
    elif t.op == 'lam':
        r = maxdb(t.args[0]) - 1
        if r < -1:
            r = -1
    else:
        r = -1
        for c in children(t):
            k = maxdb(c)
            if k > r:
                r = k
    _hasdb[t] = r
    return r


def subst_db(t, k, v):
    memo = {}

    def g(x, d):
        if maxdb(x) < d:
            return x
        key = (x, d)
        r = memo.get(key)
        if r is None:
            if x.op == 'db':
                r = v if x.args[0] == d else x
            elif x.op == 'lam':
                r = mk('lam', g(x.args[0], d + 1))
            else:
                r = _map(x, lambda y: g(y, d), memo)
            memo[key] = r
        return r
    return g(t, k)


# ---------------------------------------------------------------- printing

def show(t, depth=5):
    if type(t) is not T:
        if type(t) is tuple:
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return str(t)
    op = t.op
    if op == 'n':
        v = t.args[0]
        return str(int(v)) if v.denominator == 1 else repr(float(v))
    if op == 'c':
        if t.args[0] == 'str':
            return repr(t.args[1])
        return str(t.args[1])
    if op == 'b':
        return str(t.args[0])
    if op == 'in_':
        return t.args[0]
    if op == 'sym':
        return '%s%d' % (t.args[1], t.args[0])
    if op == 'db':
        return '#%d' % t.args[0]
    if depth <= 0:
        return '..'
    d = depth - 1
    if op == 'poly':
        out = []
        for m, c in t.args[:8]:
            fs = []
            if c != 1 or not m:
                fs.append(show(mk('n', c)))
            for a, e in m:
                s = show(a, d)
                fs.append(s if e == 1 else '%s^%s' % (s, e))
            out.append('*'.join(fs))
        if len(t.args) > 8:
            out.append('...')
        return '(' + ' + '.join(out) + ')'
    if op == 'ite':
        return 'if(%s; %s; %s)' % tuple(show(a, d) for a in t.args)
    if op == 'pos':
        return '%s > 0' % show(t.args[0], d)
    if op == 'eq0':
        return '%s == 0' % show(t.args[0], d)
    if op == 'getitem':
        return '%s[%s]' % (show(t.args[0], d), show(t.args[1], d))
    if op == 'attr':
        return '%s.%s' % (show(t.args[0], d), t.args[1])
    if op == 'tuple':
        return '(' + ', '.join(show(a, d) for a in t.args) + ')'
    if op == 'list':
        return '[' + ', '.join(show(a, d) for a in t.args) + ']'
    if op == 'str':
        return 'text<' + ' '.join(show(a, d) for a in t.args) + '>'
    return '%s(%s)' % (op, ', '.join(show(a, d) for a in t.args))


def reset():
    pass
