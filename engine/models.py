"""Models of the Python builtins and of the numpy/xarray/pandas vocabulary."""
import ast
import re
import string
from .terms import *
from . import terms as tm
from .values import *
from . import interp as ip

DTYPES = {'float': 'f8', 'float64': 'f8', 'double': 'f8', 'f8': 'f8', '<f8': 'f8', 'd': 'f8',
          'float32': 'f4', 'f4': 'f4', '<f4': 'f4', 'single': 'f4', 'f': 'f4',
          'int': 'i8', 'int64': 'i8', 'i8': 'i8', '<i8': 'i8', 'int32': 'i4', 'i4': 'i4', 'i': 'i4',
          'int16': 'i2', 'i2': 'i2', 'int8': 'i1', 'i1': 'i1', 'uint8': 'u1', 'u1': 'u1',
          'uint16': 'u2', 'u2': 'u2', 'uint32': 'u4', 'u4': 'u4', 'uint64': 'u8', 'u8': 'u8',
          'bool': 'bool', 'bool_': 'bool', 'object': 'O', 'O': 'O'}

SPECIAL = {'attrs', 'encoding', 'coords', 'name', 'dims', 'sizes', 'index', 'columns', 'variables',
           'data_vars', 'iloc', 'loc', 'flags', 'str', 'dt', 'nbytes', 'base', 'exterior'}

METHODS = {
    'sum', 'min', 'max', 'mean', 'std', 'any', 'all', 'copy', 'isel', 'sel', 'where', 'astype', 'groupby',
    'to_dataframe', 'to_xarray', 'merge', 'set_coords', 'reset_index', 'set_index', 'flatten', 'ravel',
    'reshape', 'squeeze', 'transpose', 'tolist', 'item', 'append', 'extend', 'insert', 'pop', 'index',
    'sort', 'reverse', 'remove', 'clear', 'update', 'get', 'keys', 'values_', 'items', 'setdefault',
    'format', 'join', 'split', 'strip', 'lstrip', 'rstrip', 'replace', 'startswith', 'endswith', 'lower',
    'upper', 'strftime', 'isoformat', 'total_seconds', 'send', 'close', 'next', 'write', 'read',
    'readlines', 'to_netcdf', 'drop', 'drop_vars', 'rename', 'assign', 'assign_coords', 'agg',
    'aggregate', 'apply', 'count', 'unique', 'load', 'compute', 'argsort', 'argmin', 'argmax', 'cumsum',
    'nonzero', 'fill', 'clip', 'round', 'view', 'repeat', 'take', 'searchsorted', 'dot', 'query', 'add',
    'union', 'difference', 'intersection', 'first', 'last', 'to_pydatetime', 'timestamp', 'groupby_bins',
    'encode', 'decode', 'title', 'zfill', 'isdigit', 'swapaxes', 'swap_dims', 'expand_dims', 'AddPath', 'AddPaths',
    'Execute', 'Clear', 'fillna', 'dropna', 'isnull', 'notnull', 'iterrows', 'itertuples', 'cut', 'diff',
    'to_numpy', 'median', 'prod', 'var', 'date', 'toordinal', 'timetuple', 'rglob', 'glob', 'find', 'tobytes', 'issubset', 'set_xlabel',
    'assign_attrs', 'mkdir',
}

PREFIX = (('flash_', 'number_of_flashes'), ('group_', 'number_of_groups'), ('event_', 'number_of_events'),
          ('storm_', 'number_of_storms'), ('stroke_', 'number_of_strokes'), ('trig_', 'number_of_triggers'),
          ('lutevent_', 'number_of_lutevents'), ('split_event_', 'number_of_split_event_children'))


def schema_dim(name):
    if name.startswith('number_of_'):
        return name
    for p, d in PREFIX:
        if name.startswith(p):
            return d
    return None


def install(I):
    pass


# ---------------------------------------------------------------- term level

def shape(t):
    return app('shape', t)


def _shape(t):
    if t.op in ('np.zeros', 'np.ones', 'np.empty') and t.args:
        a = t.args[0]
        if a.op in ('tuple',):
            return a
        if a.op == 'list':
            return mk('tuple', *a.args)
        if is_int(a):
            return mk('tuple', a)
        if a.op == 'shape':
            return a
    if t.op in ('np.zeros_like', 'np.ones_like', 'np.empty_like', 'astype', 'setitem', 'fed', 'np.full_like', 'abs', 'flipud'):
        if type(t.args[0]) is T:
            return shape(t.args[0])
    if t.op == 'full' and t.args[0].op != 'attr':
        return t.args[0]
    if t.op == 'transpose':
        s = shape(t.args[0])
        if s.op == 'tuple':
            return mk('tuple', *reversed(s.args))
    if t.op == 'reshape':
        return t.args[1]
    if t.op in ('upd', 'rec'):
        return shape(t.args[0])
    if t.op in ('list',):
        return mk('tuple', length(t)) if not any(a.op in ('list', 'tuple') for a in t.args) else mk('shape', t)
    if t.op == 'ite':
        a, b = t.args[1], t.args[2]
        sa, sb = shape(a), shape(b)
        if is_const(a):
            return sb
        if is_const(b):
            return sa
        if sa is sb:
            return sa
        return mk('ite', t.args[0], sa, sb)
    if tm.onedim(t) or named_column(t):
        return mk('tuple', length(t))
    return mk('shape', t)


def named_column(t):
    # the variables of the level 2 files lie along one dimension
    return t.op == 'getitem' and cstr(t.args[1]) is not None and schema_dim(cstr(t.args[1])) is not None


tm.NOLIFT.add('shape')
tm.SMART['shape'] = _shape

_old_getitem = tm.SMART['getitem']


def _getitem2(x, k):
    k = tm.short_key(k)
    if k.op == 'np.ones' and len(k.args) == 2 and k.args[1] is mk('dt', 'bool') and k.args[0] is length(x):
        # nothing is masked
        return x
    if k is NONE and x.op not in ('dict', 'upd', 'ite'):
        return mk('newaxis', x)
    if k.op == 'n' and x.op == 'transpose':
        return getitem(x.args[0], mk('tuple', tm.ALL, k))
    if k.op == 'n' and x.op in ('amin', 'amax', 'mean', 'sum', 'median', 'std') and len(x.args) == 2 and x.args[1] is mk('kw', 'axis', ZERO):
        # one column of a table reduced over its rows
        return app(x.op, getitem(x.args[0], mk('tuple', tm.ALL, k)))
    if x.op == 'shape' and k.op == 'n':
        i = cint(k)
        if i == 0:
            return length(x.args[0])
    if x.op == 'isel':
        n = cstr(k)
        if n is not None:
            d = schema_dim(n)
            if d is not None:
                for kk, v in x.args[1].args:
                    if cstr(kk) == d:
                        return getitem(getitem(x.args[0], k), v)
                return getitem(x.args[0], k)
            return mk('getitem', x, k)
    if x.op == 'getitem' and cstr(k) is not None:
        # a coordinate along the same dimension travels with the selection
        b, idx = x, None
        if cstr(b.args[1]) is None:
            b, idx = x.args[0], x.args[1]
        if b.op == 'getitem' and cstr(b.args[1]) is not None:
            d1, d2 = schema_dim(cstr(b.args[1])), schema_dim(cstr(k))
            if d1 is None and cstr(k).split('_')[0] == cstr(b.args[1]).split('_')[0]:
                d1 = d2 = 'same'
            if d1 is not None and d1 == d2:
                c = getitem(b.args[0], k)
                return c if idx is None else getitem(c, idx)
    if x.op == 'dims':
        n = cstr(k)
        if n is not None or k.op in ('getitem', 'dimname'):
            return app('dimsize', x.args[0], k)
        if k is ZERO and x.args[0].op == 'getitem':
            return mk('dimname', x.args[0])
    if x.op == 'undef':
        return x
    if x.op == 'dpop':
        if any(a is k for a in x.args[1]):
            return mk('absent')
        if k.op == 'c':
            return getitem(x.args[0], k)
    if x.op == 'dictof' and len(x.args) == 1:
        r = lookup_dictof(x, k)
        if r is not None:
            return r
    if x.op == 'collect':
        kept = ()
        if x.args[0].op != 'ddict':
            b = getitem(x.args[0], k)
            kept = b.args if b.op == 'list' else (mk('spread', b),)
        return mk('list', *tm.norm_segs(kept + pick(x.args[1], k)))
    if x.op in ('inst',):
        for a, v in x.args[1]:
            if cstr(k) == a:
                return v
    if x.op == 'm.groupby' and cstr(k) == 'groups' and len(x.args) == 2 and cstr(x.args[1]) is not None:
        # the grouping only depends on the grouped column
        return mk('getitem', mk('m.groupby', getitem(x.args[0], x.args[1])), k)
    # two-dimensional index of a view: x[a][b] with full slices
    if k.op == 'tuple':
        if len(k.args) == 1:
            return getitem(x, k.args[0])
        if k.args[-1] is ELL or (k.args[-1].op == 'slice' and k.args[-1].args == (NONE, NONE, NONE)):
            pass
    if x.op == 'transpose' and k.op == 'tuple' and len(k.args) == 2:
        a, b = k.args
        if a.op == 'slice' and b.op == 'slice':
            if a.args == (NONE, NONE, N(-1)):
                return app('flipud', getitem(x, mk('tuple', mk('slice', NONE, NONE, NONE), b)))
            if b.args == (NONE, NONE, N(-1)):
                return app('transpose', app('flipud', app('transpose', getitem(x, mk('tuple', a, mk('slice', NONE, NONE, NONE))))))
            if a.args == b.args == (NONE, NONE, NONE):
                return x
            return app('transpose', getitem(x.args[0], mk('tuple', b, a)))
        if tm.is_int(a) and tm.is_int(b):
            return getitem(x.args[0], mk('tuple', b, a))
        return app('getitem_t', x.args[0], k)
    return _old_getitem(x, k)


def pick(log, k):
    """what was added under key k"""
    out = ()
    for s in (log.args if log.op == 'list' else (mk('spread', log),)):
        out += pick1(s, k)
    return out


def pick1(s, k):
    if s.op == 'tuple':
        return tm.when(eq(s.args[0], k), (s.args[1],))
    if s.op == 'when':
        r = ()
        for y in s.args[1:]:
            r += pick1(y, k)
        return tm.when(s.args[0], r)
    if s.op == 'star':
        i = freshsym()
        r = ()
        for y in open_lam(s.args[1], i).args:
            r += pick1(y, k)
        return star(s.args[0], i, r)
    return (mk('spread', mk('picked', s, k)),)


def lookup_dictof(x, k):
    l = x.args[0]
    if l.op == 'list' and len(l.args) == 1 and l.args[0].op == 'star':
        s = l.args[0]
        i = freshsym()
        body = open_lam(s.args[1], i)
        if len(body.args) == 1 and body.args[0].op == 'tuple':
            kk, v = body.args[0].args
            # key is the i-th element of something; find the index in k
            m = match_index(kk, k, i)
            if m is not None:
                return subst(v, {i: m})
    return None


def match_index(pat, t, i):
    """m with subst(pat, i:=m) is t, for simple patterns"""
    if pat is i:
        return t
    if pat.op == 'getitem' and t.op == 'getitem' and pat.args[0] is t.args[0] and pat.args[1] is i:
        return t.args[1]
    if pat.op == 'getitem' and t.op == 'getitem' and pat.args[1] is t.args[1] and i.args[0] in pat.args[0].fv:
        return match_index(pat.args[0], t.args[0], i)
    return None


tm.SMART['getitem'] = _getitem2

_old_len = tm.SMART['len']


def _len2(t):
    if t.op == 'getitem':
        n = cstr(t.args[1])
        if n is not None:
            d = schema_dim(n)
            if d is not None:
                return app('dimsize', t.args[0], S(d))
    if t.op == 'upd' and not (t.args[0].op == 'dict'):
        if all(k[0] == 'attr' for k, v in t.args[1]):
            return length(t.args[0])
    n = ngroups(t)
    if n is not None:
        return n
    if t.op == 'dictof' and len(t.args) == 1:
        return mk('len', t)
    if t.op == 'fold':
        return mk('len', t)
    return _old_len(t)


tm.SMART['len'] = _len2


def ngroups(t):
    # rows of a table reduced over the values of one of its columns
    if t.op in ('mean', 'sum', 'amin', 'amax') and len(t.args) == 1:
        g = t.args[0]
        if g.op == 'm.groupby' and len(g.args) == 2 and g.args[0].op == 'm.to_dataframe' and cstr(g.args[1]) is not None:
            return length(app('np.unique', getitem(g.args[0].args[0], g.args[1])))
    return None


def _dimsize(ds, d):
    n = ngroups(ds)
    if n is not None:
        return n
    while ds.op == 'upd':
        ds = ds.args[0]
    if ds.op == 'isel':
        for kk, v in ds.args[1].args:
            if kk is d:
                if v.op == 'slice':
                    if v.args[0] in (NONE, ZERO) and v.args[1] is ZERO:
                        return ZERO
                    break
                if v.op in ('list', 'tuple'):
                    return length(v)
                if v.isb:
                    return app('sum', v)
                return length(v)
        else:
            return app('dimsize', ds.args[0], d)
    return mk('dimsize', ds, d)


tm.SMART['dimsize'] = _dimsize


def _transpose(t):
    if t.op == 'transpose':
        return t.args[0]
    if t.op in ('n',):
        return t
    if t.op == 'mesh':
        return mk('mesh', t.args[0], t.args[1], ONE if t.args[2] is ZERO else ZERO)
    return mk('transpose', t)


def _flipud(t):
    if t.op == 'flipud':
        return t.args[0]
    if t.op == 'n':
        return t
    return mk('flipud', t)


def _strftime(x, f=None, *kw):
    # each directive and each piece of plain text on its own
    c = cstr(f) if f is not None else None
    if kw or c is None or x.op in ('ite', 'top'):
        return mk('m.strftime', x, *(() if f is None else (f,) + kw))
    parts = [p for p in re.split('(%-?[a-zA-Z])', c.replace('%%', '\0')) if p]
    if len(parts) == 1 and parts[0][0] == '%':
        return mk('m.strftime', x, f)
    out = [mk('m.strftime', x, S(p)) if p[0] == '%' else S(p.replace('\0', '%')) for p in parts]
    return app('str', *out) if out else S('')


tm.SMART['m.strftime'] = _strftime


def _fmt(v, f):
    if cstr(f) and '%' in cstr(f) and '{' not in cstr(f) and cstr(f) != '%':
        return app('m.strftime', v, f)
    return mk('fmt', v, f)


tm.SMART['fmt'] = _fmt


def _timestamp(*a):
    if len(a) == 1 and (a[0].op == 'pd.Timestamp' or a[0].op == 'm.tz_localize' and a[0].args[0].op == 'pd.Timestamp'):
        return a[0]
    return mk('pd.Timestamp', *a)


def _isoformat(x, *a):
    # the text of a moment does not depend on the class that holds it
    if x.op == 'pd.Timestamp' and len(x.args) == 1 and x.args[0].op in ('amin', 'amax', 'min', 'max'):
        x = x.args[0]
    if len(a) == 1 and cstr(a[0]) is not None and len(cstr(a[0])) == 1:
        return app('m.replace', mk('m.isoformat', x), S('T'), a[0])
    return mk('m.isoformat', x, *a)


def _limits(name):
    def f(ax, *a):
        if len(a) == 2 and all(x.op != 'kw' for x in a):
            a = (mk('tuple', *a),)
        return mk(name, ax, *a)
    return f


def _add_subplot(fig, *a):
    n = cint(a[0]) if a else None
    if n is not None and 111 <= n <= 999 and all(x.op == 'kw' for x in a[1:]):
        a = (N(n // 100), N(n // 10 % 10), N(n % 10)) + a[1:]
    return mk('m.add_subplot', fig, *a)


tm.SMART['m.set_xlim'] = _limits('m.set_xlim')
tm.SMART['m.set_ylim'] = _limits('m.set_ylim')
tm.SMART['m.add_subplot'] = _add_subplot


def _narrow(x):
    """a number written without padding"""
    if x.op == 'fmt' and cstr(x.args[1]):
        m = re.fullmatch(r'\d+(\.\d+[fe])', cstr(x.args[1]))
        if m and cstr(x.args[1])[0] != '0':
            return mk('fmt', x.args[0], S(m.group(1)))
    return None


def _replace(x, *a):
    if len(a) == 2 and cstr(a[0]) == ' ' and cstr(a[1]) == '':
        parts = x.args if x.op == 'str' else (x,)
        out = [S(cstr(p).replace(' ', '')) if cstr(p) is not None else _narrow(p) for p in parts]
        if None not in out:
            return app('str', *out)
    return mk('m.replace', x, *a)


def _strip(side):
    def f(x, *a):
        if not a:
            parts = list(x.args) if x.op == 'str' else [x]
            for i in {'m.strip': (0, -1), 'm.lstrip': (0,), 'm.rstrip': (-1,)}[side]:
                c = cstr(parts[i])
                if c is not None:
                    parts[i] = S(c.lstrip() if i == 0 else c.rstrip())
                    ok = parts[i].args[1] != ''
                else:
                    n = _narrow(parts[i])
                    ok = n is not None
                    parts[i] = n
                if not ok:
                    return mk(side, x)
            return app('str', *parts)
        return mk(side, x, *a)
    return f


tm.SMART['m.replace'] = _replace
for _s in ('m.strip', 'm.lstrip', 'm.rstrip'):
    tm.SMART[_s] = _strip(_s)


tm.SMART['pd.Timestamp'] = _timestamp
tm.SMART['m.isoformat'] = _isoformat
tm.SMART['transpose'] = _transpose
tm.SMART['flipud'] = _flipud


def _astype(x, d):
    if x.op == 'tuple':
        x = mk('list', *x.args)
    if x.op == 'astype' and x.args[1] is d:
        return x
    if x.isb and d.op == 'dt' and d.args[0] == 'bool':
        return x
    if x.op == 'list' and d.op == 'dt' and d.args[0] == 'f8' and tm.concrete(x.args) and any(a.op == 'poly' and not is_int(a) for a in x.args):
        return x
    return mk('astype', x, d)


tm.SMART['astype'] = _astype

DISTRIB_SUM = True


def _sum(x, *kw):
    if x.op == 'n' and not kw:
        return x
    if x.op in ('list', 'tuple') and tm.concrete(x.args) and not kw:
        r = ZERO
        for a in x.args:
            r = add(r, a)
        return r
    if x.op == 'compress' and x.args[0] is ONE:
        return app('sum', x.args[1])
    g = grouped('sum', x) if not kw else None
    if g is not None:
        return mk('sum', g)
    if x.op == 'poly' and len(x.args) > 1 and all(m and all(sliced(a) for a, e in m) for m, c in x.args):
        # products of parts of arrays are added up one by one
        r = ZERO
        for m, c in x.args:
            v = ONE
            for a, e in m:
                v = mul(v, power(a, mk('n', e)) if e != 1 else a)
            r = add(r, mul(mk('n', c), mk('sum', v, *kw)))
        return r
    return mk('sum', x, *kw)


def sliced(a):
    if a.op != 'getitem':
        return False
    k = a.args[1]
    return k.op == 'slice' or k.op == 'tuple' and any(z.op == 'slice' for z in k.args)


def grouped(op, x):
    # members of several groups one after the other: reduce each group first
    if x.op == 'getitem' and x.args[1].op == 'list' and len(x.args[1].args) == 1 and x.args[1].args[0].op == 'star':
        s = x.args[1].args[0]
        i = freshsym()
        b = open_lam(s.args[1], i).args
        if len(b) == 1 and b[0].op == 'spread':
            return mk('list', *star(s.args[0], i, (app(op, getitem(x.args[0], b[0].args[0])),)))
    if x.op == 'list' and len(x.args) == 1 and x.args[0].op == 'star':
        i = freshsym()
        b = open_lam(x.args[0].args[1], i).args
        if len(b) == 1 and b[0].op == 'spread':
            return mk('list', *star(x.args[0].args[0], i, (app(op, b[0].args[0]),)))


tm.SMART['sum'] = _sum
for _r in ('sum', 'amin', 'amax', 'mean'):
    tm.NOLIFT.add(_r)


def _amm(kind):
    def f(x, *kw):
        if x.op in ('list', 'tuple') and tm.concrete(x.args) and x.args and not kw:
            return maxmin(kind, list(x.args))
        g = grouped('a' + kind, x) if not kw else None
        if g is not None:
            return mk('a' + kind, g)
        return mk('a' + kind, x, *kw)
    return f


tm.SMART['amin'] = _amm('min')
tm.SMART['amax'] = _amm('max')


def _in(k, x):
    if x.op == 'setand':
        return b_and(app('in', k, x.args[0]), app('in', k, x.args[1]))
    if x.op == 'setdiff':
        return b_and(app('in', k, x.args[0]), b_not(app('in', k, x.args[1])))
    if x.op in ('np.unique', 'sorted') and len(x.args) == 1:
        return app('in', k, x.args[0])
    if x.op in ('list', 'tuple', 'set'):
        r = FALSE
        for s in x.args:
            if s.op == 'spread':
                r = b_or(r, app('in', k, s.args[0]))
            elif s.op == 'when':
                q = FALSE
                for y in s.args[1:]:
                    if y.op in ('spread', 'star'):
                        return mk('in', k, x)
                    q = b_or(q, eq(k, y))
                r = b_or(r, b_and(s.args[0], q))
            elif s.op == 'star':
                i = freshsym()
                b = open_lam(s.args[1], i)
                c = FALSE
                for y in b.args:
                    if y.op in ('spread', 'star', 'when'):
                        return mk('in', k, x)
                    c = b_or(c, eq(k, y))
                r = b_or(r, ip.any_star(s.args[0], i, c))
            else:
                r = b_or(r, eq(k, s))
        return r
    if x.op == 'dict':
        r = FALSE
        for kk, v in x.args:
            p = TRUE
            if v.op == 'ite' and v.args[2] is ip.ABSENT:
                p = v.args[0]
            r = b_or(r, b_and(p, eq(k, kk)))
        return r
    if x.op == 'emptyds':
        return FALSE
    if x.op == 'cols' and x.args[1].op == 'set':
        return app('in', k, x.args[1])
    if x.op == 'binned' and x.args[1].op in ('emptyds', 'cols'):
        return app('in', k, x.args[1])
    if x.op == 'keys':
        return app('in', k, x.args[0])
    if x.op == 'getitem' and groups_of(x) is not None:
        return app('in', k, groups_of(x))
    if x.op == 'dpop':
        if any(a is k for a in x.args[1]):
            return FALSE
        return app('in', k, x.args[0])
    if x.op == 'upd':
        r = app('in', k, x.args[0])
        for kk, v in x.args[1]:
            if kk[0] == 'item':
                r = b_or(r, eq(k, kk[1]))
        return r
    if x.op == 'c' and x.args[0] == 'str' and cstr(k) is not None:
        return TRUE if cstr(k) in x.args[1] else FALSE
    return mk('in', k, x)


tm.SMART['in'] = _in


def has_key(t, k):
    return app('in', k, t)


def dpop(t, keys):
    if t.op == 'dpop':
        keys = tuple(t.args[1]) + tuple(keys)
        t = t.args[0]
    keys = tuple(sorted(set(keys), key=lambda x: x.id))
    return mk('dpop', t, keys)


def attr_term(t, name):
    if name in ('data', 'values'):
        return t
    if name == 'shape':
        return shape(strip(t))
    if name == 'T':
        return app('transpose', strip(t))
    if name == 'size':
        return length(strip(t)) if tm.onedim(strip(t)) or named_column(strip(t)) or strip(t).op in ('flat', 'np.unique') else app('size', strip(t))
    if name == 'ndim':
        return app('ndim', strip(t))
    if name == 'dims' or name == 'sizes':
        return dims_term(t)
    if name in SPECIAL or name == 'dtype':
        return app('attr', t, name)
    return getitem(t, S(name))


def dims_term(t):
    b = t
    while b.op == 'upd':
        for kk, v in b.args[1]:
            if kk == ('attr', 'dims'):
                return v
        b = b.args[0]
    if b.op == 'getitem' and cstr(b.args[1]) is not None:
        d = schema_dim(cstr(b.args[1]))
        if d is not None:
            return mk('tuple', S(d))
    return mk('dims', b)


def _attr(t, name):
    if t.op == 'upd':
        for kk, v in t.args[1]:
            if kk == ('attr', name):
                return v
        if name in SPECIAL:
            return app('attr', t.args[0], name)
    if t.op == 'undef':
        return t
    return mk('attr', t, name)


tm.SMART['attr'] = _attr


def strip(t):
    """drop metadata updates that do not change the values"""
    if t.op == 'upd' and all(k[0] == 'attr' for k, v in t.args[1]):
        return strip(t.args[0])
    if t.op == 'ite' and not t.isb and (t.args[1].op in ('upd', 'ite') or t.args[2].op in ('upd', 'ite')):
        return ite(t.args[0], strip(t.args[1]), strip(t.args[2]))
    return t


def val(I, v, st):
    return strip(I.freeze(v, st))


def mkslice(a, b, c):
    if c is ONE:
        c = NONE
    if a is ZERO and (c is NONE):
        a = NONE
    return app('slice', a, b, c)


# ---------------------------------------------------------------- arithmetic

def arith(op, x, y):
    x, y = strip(x), strip(y)
    if op == 'Add':
        if x.op in ('shape', 'tuple') and y.op in ('shape', 'tuple'):
            return mk('tuple', *[z for s in (x, y) for z in (s.args if s.op == 'tuple' else (mk('spread', s),))])
        return add(x, y)
    if op == 'Sub':
        if x.op in tm.SETS or y.op in tm.SETS:
            return app('setdiff', x, y)
        return sub(x, y)
    if op == 'Mult':
        return mul(x, y)
    if op == 'Div':
        return div(x, y)
    if op == 'FloorDiv':
        if any(a is SEC for t in (x, y) for m in tm.to_poly(t) for a, e in m):
            # whole times a period fits in another
            return app('tdiv', x, y)
        return floordiv(x, y)
    if op == 'Mod':
        return app('mod', x, y)
    if op == 'Pow':
        return power(x, y)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        if x.op == 'n' and y.op == 'n':
            a, b = int(x.args[0]), int(y.args[0])
            return N({'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op])
        if x.isb or y.isb or (boolish(x) and boolish(y)):
            if op == 'BitAnd':
                return b_and(x, y)
            if op == 'BitOr':
                return b_or(x, y)
            return ite(tm.truth(x), b_not(y), tm.truth(y))
        if x.op in tm.SETS or y.op in tm.SETS:
            return app({'BitAnd': 'setand', 'BitOr': 'setor', 'BitXor': 'setxor'}[op], x, y)
        return app(op.lower(), *sorted([x, y], key=lambda z: z.id))
    if op == 'LShift':
        if x.op == 'n' and y.op == 'n':
            return N(int(x.args[0]) << int(y.args[0]))
        if y.op == 'n':
            return mul(x, N(2 ** int(y.args[0])))
        return mul(x, power(N(2), y))
    if op == 'RShift':
        return floordiv(x, power(N(2), y))
    if op == 'MatMult':
        return app('matmul', x, y)
    return app('op' + op, x, y)


def cmp(op, x, y):
    x, y = strip(x), strip(y)
    if op == 'Eq':
        return eq(x, y)
    if op == 'NotEq':
        return b_not(eq(x, y))
    if x.op == 'c' and y.op == 'c' and x.args[0] == 'str' and y.args[0] == 'str':
        a, b = x.args[1], y.args[1]
        return TRUE if {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op] else FALSE
    if op in ('Lt', 'LtE', 'Gt', 'GtE') and (x.op in ('list', 'tuple', 'c', 'str', 'dict') and x not in (PI, SEC, INF, NAN) or y.op in ('list', 'tuple', 'str', 'dict')):
        if x.op == 'tuple' and y.op == 'tuple' or x.op == 'list':
            return app('ord', x, y) if op in ('Lt', 'GtE') else app('ord', y, x)
    if op == 'Lt':
        return gt(y, x)
    if op == 'LtE':
        return b_not(gt(x, y))
    if op == 'Gt':
        return gt(x, y)
    if op == 'GtE':
        return b_not(gt(y, x))
    raise ip.Unsupported('compare ' + op)


def contains(I, cont, k, st):
    if type(cont) is IteV:
        return ite(cont.c, contains(I, cont.a, k, st), contains(I, cont.b, k, st))
    kt = I.freeze(k, st)
    if type(cont) is Ref:
        I.settle(cont, st)
        o = st.heap[cont.oid]
        if o.kind == 'dict':
            if kt in o.items:
                return o.items[kt][0]
            r = has_key(o.base, kt) if o.base is not None else FALSE
            if kt.op == 'c' and all(x.op == 'c' for x in o.items):
                return r
            for kk, (p, v) in o.items.items():
                r = b_or(r, b_and(p, eq(kt, kk)))
            return r
        if o.kind in ('list', 'set'):
            return app('in', kt, mk('list', *I.fsegs(o.segs, st)))
        if o.kind == 'inst':
            m, _ = o.cls.lookup('__contains__')
            if m is not None:
                return I.truth(I.call(Bound(m, cont), [k], {}, st), st)
    return app('in', kt, I.freeze(cont, st))


def percent_format(I, a, b, st):
    s = cstr(a)
    if s is None:
        return app('strmod', a, I.freeze(b, st))
    import re
    vals = list(b.segs) if type(b) is Tup else None
    if vals is None:
        bt = I.freeze(b, st)
        if bt.op == 'tuple':
            vals = list(bt.args)
        else:
            vals = [bt]
    parts = []
    pos = 0
    i = 0
    for m in re.finditer(r'%(\([^)]*\))?([-+ 0#]*\d*(?:\.\d+)?)([a-zA-Z%])', s):
        parts.append(S(s[pos:m.start()]))
        pos = m.end()
        if m.group(3) == '%':
            parts.append(S('%'))
            continue
        if m.group(1):
            v = I.freeze(I.getitem(b, S(m.group(1)[1:-1]), st), st)
        else:
            if i >= len(vals):
                I.pending.append((TRUE, S('TypeError'), st.clone()))
                return tm.top('format')
            v = I.freeze(vals[i], st)
            i += 1
        spec = m.group(2)
        conv = m.group(3)
        if conv == 's' and not spec:
            parts.append(fmt(v, ''))
        elif conv in 'di':
            parts.append(fmt(app('int', v) if not is_str(v) else v, spec + 'd'))
        else:
            parts.append(fmt(v, spec + conv))
    parts.append(S(s[pos:]))
    return concat(parts)


def str_format(I, s, args, kwargs, st):
    import string
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            parts.append(S(lit))
        if field is None:
            continue
        name, rest = field, ''
        for j, ch in enumerate(field):
            if ch in '.[':
                name, rest = field[:j], field[j:]
                break
        if name == '':
            if auto >= len(args):
                I.pending.append((TRUE, S('IndexError'), st.clone()))
                return tm.top('format')
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        else:
            if name in kwargs:
                v = kwargs[name][1]
            elif '**' in kwargs:
                v = getitem(kwargs['**'][1], S(name))
            else:
                I.pending.append((TRUE, S('KeyError'), st.clone()))
                return tm.top('format')
        while rest:
            if rest[0] == '.':
                k = 1
                while k < len(rest) and rest[k] not in '.[':
                    k += 1
                v = I.getattr(v, rest[1:k], st)
                rest = rest[k:]
            else:
                k = rest.index(']')
                key = rest[1:k]
                v = I.getitem(v, N(int(key)) if key.isdigit() else S(key), st)
                rest = rest[k + 1:]
        t = I.freeze(v, st)
        if conv == 'r':
            t = app('repr', t)
        parts.append(fmt(t, spec or ''))
    return concat(parts) if parts else S('')


# ---------------------------------------------------------------- opaque objects

def as_child(I, st, content, name=None, parent=None):
    arr = bool(name and schema_dim(name)) or (parent is not None and parent.cls == 'ds' and name is not None)
    return I.newop(st, content, arr=arr, eff=parent.eff if parent is not None else False)


def op_child(I, ref, o, kk, st):
    if kk in o.ch:
        v = o.ch[kk]
        if type(v) is T and (v.op == 'ite' or v.isb):
            v = I.simp(v, st)
        return v
    c = I.default_child(o.content, kk)
    if c.op in ('n', 'c', 'b', 'tuple', 'undef', 'top'):
        return c
    v = None
    if o.kind == 'op' and o.cls == 'ds' and o.parent is not None and kk[0] == 'item':
        po = st.heap[o.parent.oid]
        if po.content is o.content:
            v = op_child(I, o.parent, po, kk, st)
            if I.freeze(v, st) is not c:
                v = None
    if v is None:
        v = as_child(I, st, c, cstr(kk[1]) if type(kk[1]) is T else None, o)
    o2 = st.heap[ref.oid]
    ch = dict(o2.ch)
    ch[kk] = v
    st.heap[ref.oid] = o2.rep(ch=ch)
    return v


def op_getattr(I, ref, o, name, st):
    if name in ('data', 'values'):
        if o.kind == 'op' and not o.arr and o.cls != 'ds':
            st.heap[ref.oid] = o.rep(arr=True)
        return ref
    if name == 'T':
        return I.alloc(st, Obj('view', parent=ref, key='T'))
    if name in ('shape', 'size', 'ndim'):
        return attr_term(val(I, ref, st), name)
    if o.kind == 'view':
        if name in METHODS:
            return Meth(ref, name)
        t = I.freeze(ref, st)
        return term_getattr(I, t, name, st)
    if name in ('dims', 'sizes'):
        if ('attr', 'dims') in o.ch:
            return o.ch[('attr', 'dims')]
        return dims_term(o.content)
    if o.eff and name not in SPECIAL:
        if ('item', S(name)) in o.ch:
            return o.ch[('item', S(name))]
        return op_child(I, ref, o, ('item', S(name)), st)
    if name in METHODS and ('item', S(name)) not in o.ch and name != 'index':
        return Meth(ref, name)
    if name in SPECIAL or name == 'dtype':
        return op_child(I, ref, o, ('attr', name), st)
    return op_child(I, ref, o, ('item', S(name)), st)


def op_setattr(I, ref, o, name, v, st):
    if name == 'shape':
        I.setcontent(ref, app('reshape', val(I, ref, st), I.freeze(v, st)), st)
        return
    if name in ('data', 'values'):
        I.setcontent(ref, val(I, v, st), st)
        return
    if o.kind == 'view':
        raise ip.Unsupported('attribute store on view')
    kk = ('attr', name) if name in SPECIAL else ('item', S(name))
    ch = dict(o.ch)
    if name == 'attrs' and type(v) is not Ref:
        v = I.box(v, st)
    ch[kk] = v
    st.heap[ref.oid] = st.heap[ref.oid].rep(ch=ch)
    if o.eff:
        I.log_event(('eff', base_id(o.content)), mk('set', o.content, S(name), I.freeze(v, st)), st)


def base_id(t):
    """identity of the object an effect acts on"""
    return t


def is_basic(k):
    if k is ELL or k.op == 'slice' or k is NONE:
        return True
    if k.op == 'tuple':
        return all(x is ELL or x.op == 'slice' or x is NONE or is_int(x) or x.op in ('n', 'sym') for x in k.args) and \
            any(x.op == 'slice' or x is ELL for x in k.args)
    return False


def op_getitem(I, ref, o, key, st):
    if type(key) is Ref and st.heap[key.oid].kind == 'dict':
        return _m_isel(I, ref, [key], {}, st)
    if type(key) is IteV:
        a = I.getitem(ref, key.a, st)
        b = I.getitem(ref, key.b, st)
        return I.merge_val(key.c, a, b)
    k = strip(I.freeze(key, st))
    if cstr(k) is not None and o.kind == 'op':
        return op_child(I, ref, o, ('item', k), st)
    if k.op == 'ite':
        # fall back to a plain read
        return getitem(val(I, ref, st), k)
    if k.op == 'tuple' and tm.ELL in k.args:
        k = tm.full_key(I.made.get(ref.oid) or val(I, ref, st), k)
    if is_basic(k) and not (k.op == 'slice' and k.args == (NONE, NONE, NONE) and False):
        if o.kind == 'op' and o.eff:
            return getitem(val(I, ref, st), k)
        return I.alloc(st, Obj('view', parent=ref, key=k, arr=o.arr))
    if o.kind == 'op' and ('item', k) in o.ch:
        return o.ch[('item', k)]
    if k.op in ('list', 'tuple') and o.kind == 'op' and k.args and all(cstr(x) is not None for x in k.args):
        t = I.freeze(ref, st)
        cols = mk('list', *k.args)
        r = I.newop(st, getitem(t, cols))
        ch = {}
        for x in k.args:
            ch[('item', x)] = op_child(I, ref, st.heap[ref.oid], ('item', x), st)
        st.heap[r.oid] = st.heap[r.oid].rep(content=app('cols', mk('origin', o.content), mkset(k.args)), ch=ch, cls=o.cls)
        return r
    return getitem(val(I, ref, st), k)


mkset = ip.mkset if hasattr(ip, 'mkset') else None


def _mkset(segs):
    return ip.mkset(tuple(segs))


def mkset(segs):
    return ip.mkset(tuple(segs))


def op_setitem(I, ref, o, key, v, st):
    k = strip(I.freeze(key, st))
    if cstr(k) is not None and o.kind == 'op':
        if o.cls == 'ds' or (type(v) is Tup and len(v.segs) in (2, 3) and looks_dims(I, v.segs[0], st)):
            v = ds_value(I, v, st)
        elif o.content.op in ('np.empty', 'np.empty_like') and type(v) is Ref and val(I, v, st).op == 'np.zeros_like':
            v = ZERO
        ch = dict(o.ch)
        ch[('item', k)] = v
        st.heap[ref.oid] = o.rep(ch=ch)
        if o.eff:
            I.log_event(('eff', o.content), mk('setitem_', o.content, k, I.freeze(v, st)), st)
        return
    if o.kind == 'op' and k.op == 'ite' and not k.isb and all(cstr(x) is not None for x in leaves(k)):
        c = k.args[0]
        s1, s2 = st.clone(), st.clone()
        op_setitem(I, ref, s1.heap[ref.oid], k.args[1], v, s1)
        op_setitem(I, ref, s2.heap[ref.oid], k.args[2], v, s2)
        I.adopt(st, I.merge(c, s1, s2))
        return
    if o.kind == 'op' and o.cls == 'ds':
        v = ds_value(I, v, st)
        cur = o.content
        for kk, x in list(o.ch.items()):
            fx = I.freeze(x, st)
            if kk[0] == 'item' and fx is not I.default_child(o.content, kk):
                cur = setitem(cur, kk[1], fx)
        keep = {kk: x for kk, x in o.ch.items() if kk[0] != 'item'}
        st.heap[ref.oid] = o.rep(content=setitem(cur, k, I.freeze(v, st)), ch=keep)
        return
    cur = val(I, ref, st) if o.kind == 'view' else (o.content if o.kind == 'op' else val(I, ref, st))
    if o.kind == 'op' and o.ch and not o.arr:
        cur2 = cur
        for kk, x in list(o.ch.items()):
            fx = I.freeze(x, st)
            if kk[0] == 'item' and fx is not I.default_child(o.content, kk):
                cur2 = setitem(cur2, kk[1], fx)
        keep = {kk: x for kk, x in o.ch.items() if kk[0] != 'item'}
        st.heap[ref.oid] = o.rep(content=cur2, ch=keep)
        cur = cur2
    nv = store(cur, k, val(I, v, st))
    I.setcontent(ref, nv, st)


def store(cur, k, v):
    return setitem(cur, k, v)


def leaves(t):
    if t.op == 'ite':
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def looks_dims(I, v, st):
    t = I.freeze(v, st)
    if cstr(t) is not None:
        return True
    return t.op in ('list', 'tuple') and t.args and all(cstr(x) is not None for x in t.args)


def dims_norm(t):
    if cstr(t) is not None:
        return mk('tuple', t)
    if t.op == 'list':
        return mk('tuple', *t.args)
    return t


def ds_value(I, v, st):
    """value stored into a dataset: (dims, data[, attrs]) or an array"""
    t = None
    if type(v) is Tup and len(v.segs) >= 2:
        segs = v.segs
    elif type(v) is T and v.op == 'tuple' and len(v.args) >= 2:
        segs = v.args
    else:
        return v
    ch = {('attr', 'dims'): dims_norm(I.freeze(segs[0], st))}
    if len(segs) > 2:
        ch[('attr', 'attrs')] = segs[2]
    ch[('attr', 'encoding')] = I.newdict(st)
    return I.newop(st, app('dafill', val(I, segs[1], st)), arr=True, ch=ch)


def term_getattr(I, t, name, st):
    if t.op == 'ite' and not t.isb:
        a = term_getattr(I, t.args[1], name, st)
        b = term_getattr(I, t.args[2], name, st)
        if isinstance(a, Meth) and isinstance(b, Meth):
            return Meth(t, name)
        return I.merge_val(t.args[0], a, b)
    if t.op == 'inst':
        for a, v in t.args[1]:
            if a == name:
                return v
    if t.op in ('undef', 'top'):
        return t
    if name in ('data', 'values'):
        return t
    if is_str(t) or t.op in ('fmt',):
        return Meth(t, name)
    if name in METHODS:
        if t.op == 'upd' and any(kk == ('item', S(name)) for kk, v in t.args[1]):
            return getitem(t, S(name))
        return Meth(t, name)
    return attr_term(t, name)


def term_getitem(I, t, k, st):
    if t.op == 'c' and t.args[0] == 'str':
        try:
            if k.op == 'slice':
                a, b, c = [None if z is NONE else pyval(z) for z in k.args]
                return S(t.args[1][slice(a, b, c)])
            return S(t.args[1][cint(k)])
        except Exception:
            pass
    return getitem(t, strip(k))


def ext_index(I, ext, key, st):
    k = I.freeze(key, st)
    if ext.path in ('np.s_', 'np.index_exp'):
        return k
    if ext.path == 'np.r_':
        if k.op == 'tuple':
            return app('np.hstack', mk('list', *k.args))
    return app(ext.path, k)


# ---------------------------------------------------------------- dict

def dict_get(I, ref, key, st, default=None, has_default=False):
    o = st.heap[ref.oid]
    k = I.freeze(key, st)
    if k in o.items:
        p, v = o.items[k]
        if p is TRUE or (not has_default and o.base is None):
            if p is not TRUE and not has_default:
                c = I.simp(p, st)
                if c is not TRUE:
                    I.pending.append((b_not(c), S('KeyError'), st.clone()))
            return v
        p = I.simp(p, st)
        d = default if o.base is None else I.merge_val(has_key(o.base, k), getitem(o.base, k), default)
        return I.merge_val(p, v, d)
    allc = k.op == 'c' or k.op == 'n'
    if o.base is None:
        if allc and all(x.op in ('c', 'n') for x in o.items):
            if has_default:
                return default
            I.pending.append((TRUE, S('KeyError'), st.clone()))
            I.notes.append('missing key %s at %s:%s' % (show(k), I.cur[0], I.cur[1]))
            return tm.top('missing key %s' % show(k))
        if k.op == 'ite':
            return I.merge_val(k.args[0], dict_get(I, ref, k.args[1], st, default, has_default), dict_get(I, ref, k.args[2], st, default, has_default))
        if o.items and len(o.items) <= 16 and all(p is TRUE for p, _ in o.items.values()):
            # case split over the known keys
            items = list(o.items.items())
            r = default if has_default else mk('undef')
            for kk, (p, v) in reversed(items):
                r = I.merge_val(eq(k, kk), v, r)
            return r
        t = I.freeze(ref, st)
        if has_default:
            return I.merge_val(has_key(t, k), getitem(t, k), default)
        return getitem(t, k)
    if o.items and not (allc and all(x.op in ('c', 'n') for x in o.items)):
        t = I.freeze(ref, st)
        if has_default:
            return I.merge_val(has_key(t, k), getitem(t, k), default)
        return getitem(t, k)
    v = getitem(o.base, k)
    if has_default:
        c = I.simp(has_key(o.base, k), st)
        return I.merge_val(c, v, default)
    return v


def dict_remove(I, ref, k, st):
    o = st.heap[ref.oid]
    items = dict(o.items)
    items.pop(k, None)
    base = o.base
    if base is not None:
        base = dpop(base, [k])
    st.heap[ref.oid] = o.rep(items=items, base=base)


def dict_update(I, ref, v, st):
    o = st.heap[ref.oid]
    if type(v) is IteV:
        I.guarded(v, st, lambda b, z: dict_update(I, ref, b, z))
        return
    if type(v) is Ref and st.heap[v.oid].kind == 'dict':
        o2 = st.heap[v.oid]
        items = dict(o.items)
        base = o.base
        if o2.base is not None:
            if base is None and not items:
                base = o2.base
            else:
                # an opaque mapping overrides what is already there
                cur = I.freeze(ref, st)
                base = mk('merged', cur, o2.base)
                items = {}
        for k, (p, x) in o2.items.items():
            if p is TRUE:
                items[k] = (TRUE, x)
            else:
                old = items.get(k, (FALSE, x))
                items[k] = (b_or(p, old[0]), I.merge_val(p, x, old[1]) if old[0] is not FALSE else x)
        st.heap[ref.oid] = o.rep(items=items, base=base)
        return
    t = I.freeze(v, st)
    if t.op == 'dict':
        items = dict(o.items)
        for k, x in t.args:
            items[k] = (TRUE, x)
        st.heap[ref.oid] = o.rep(items=items)
        return
    if o.base is None and not o.items:
        st.heap[ref.oid] = o.rep(base=t)
    else:
        st.heap[ref.oid] = o.rep(base=mk('merged', I.freeze(ref, st), t), items={})


def delitem(I, base, key, st):
    k = I.freeze(key, st)
    if type(base) is Ref:
        o = st.heap[base.oid]
        if o.kind == 'dict':
            dict_remove(I, base, k, st)
            return
        if o.kind == 'op':
            ch = dict(o.ch)
            ch.pop(('item', k), None)
            st.heap[base.oid] = o.rep(ch=ch, content=dpop(o.content, [k]))
            return
        if o.kind == 'list' and ip.plainsegs(o.segs) and cint(k) is not None:
            l = list(o.segs)
            del l[cint(k)]
            st.heap[base.oid] = o.rep(segs=tuple(l))
            return
    raise ip.Unsupported('del item')


# ---------------------------------------------------------------- calls

def kwterms(I, kwargs, st):
    out = []
    for k in sorted(kwargs):
        p, v = kwargs[k]
        t = val(I, v, st)
        if p is not TRUE:
            t = ite(p, t, ip.ABSENT)
        out.append(mk('kw', k, t))
    return out


def argterms(I, args, kwargs, st):
    return [val(I, a, st) for a in args] + kwterms(I, kwargs, st)


def canon_args(op, vals):
    return vals


def ret_value(I, t, kind, st):
    if kind is None or kind == 'event':
        return t
    if kind == 'ds':
        r = I.newop(st, t)
        st.heap[r.oid] = st.heap[r.oid].rep(cls='ds')
        return r
    if kind == 'arr':
        return I.newop(st, t, arr=True)
    if kind == 'obj':
        return I.newop(st, t)
    if isinstance(kind, int):
        return Tup([getitem(t, N(i)) for i in range(kind)])
    if kind == 'levels':
        return I.newdict(st, {S(k): (TRUE, Tup([getitem(getitem(t, S(k)), N(i)) for i in range(2)])) for k in ('flash', 'group', 'event')})
    return t


REPO_MODELS = {}


def model_repo(I, fv):
    return fv.name in REPO_MODELS


def call_repo_model(I, fv, args, kwargs, st):
    return REPO_MODELS[fv.name](I, fv, args, kwargs, st)


def ext_value(I, e):
    p = e.path
    if p in ('string.ascii_lowercase', 'string.ascii_uppercase', 'string.digits'):
        return S(getattr(string, p[7:]))
    c = {'np.pi': PI, 'math.pi': PI, 'np.nan': NAN, 'np.NaN': NAN, 'math.nan': NAN, 'np.inf': INF, 'np.newaxis': NONE, 'np.NAN': NAN}.get(p)
    if c is not None:
        return c
    if p.startswith('np.') and p[3:] in DTYPES:
        return e
    return e


def dtype(I, v, st):
    if isinstance(v, Builtin):
        d = DTYPES.get(v.name)
        if d:
            return mk('dt', d)
    if isinstance(v, Ext):
        d = DTYPES.get(v.path.split('.')[-1])
        if d:
            return mk('dt', d)
    t = I.freeze(v, st)
    if cstr(t) in DTYPES:
        return mk('dt', DTYPES[cstr(t)])
    if t.op in ('list',):
        segs = []
        for x in t.args:
            if x.op == 'tuple' and len(x.args) >= 2 and cstr(x.args[1]) in DTYPES:
                segs.append(mk('tuple', x.args[0], mk('dt', DTYPES[cstr(x.args[1])]), *x.args[2:]))
            elif x.op == 'tuple' and len(x.args) >= 2 and x.args[1].op == 'ext' and x.args[1].args[0].split('.')[-1] in DTYPES:
                segs.append(mk('tuple', x.args[0], mk('dt', DTYPES[x.args[1].args[0].split('.')[-1]]), *x.args[2:]))
            else:
                segs.append(x)
        return mk('list', *segs)
    if t.op == 'ext' and t.args[0].split('.')[-1] in DTYPES:
        return mk('dt', DTYPES[t.args[0].split('.')[-1]])
    if t.op == 'np.dtype' and len(t.args) == 1:
        return t.args[0]
    return t


EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def slot(I, v, st):
    """the part of an array a consumer was bound to, without its content"""
    o = st.heap[v.oid]
    return mk('slot', o.key) if o.kind == 'view' and type(o.key) is T else mk('slot')


def call_ext(I, fv, args, kwargs, st):
    f = EXT.get(fv.path)
    if f is not None:
        r = f(I, st, args, kwargs)
        if r is not NotImplemented:
            return r
    p = fv.path
    if p.startswith('np.') and p[3:] in DTYPES and len(args) == 1 and not kwargs:
        return app('astype', val(I, args[0], st), mk('dt', DTYPES[p[3:]]))
    if is_effect_ext(p):
        t = app(p, *argterms(I, args, kwargs, st))
        I.log_event(('eff', mk('ext', p)), t, st)
        return I.newop(st, t, eff=True) if p.startswith('matplotlib') else t
    if p.split('.')[-1] in I.sinks:
        # writes into its first array argument
        i = next((i for i, v in enumerate(args) if type(v) is Ref and I.is_arr(v, st)), None)
        if i is not None:
            t = app(p, *argterms(I, args[:i] + [slot(I, args[i], st)] + args[i + 1:], kwargs, st))
            I.setcontent(args[i], mk('fed', t), st)
            return t
    if p in ARRAYLIKE:
        args = [mk('list', *a.args) if type(a) is T and a.op == 'tuple' else mk('list', *I.freeze(a, st).args) if type(a) is Tup else a for a in args]
    pos = SIGS.get(p)
    if pos:
        kw = dict(kwargs)
        a2 = []
        for i, a in enumerate(args):
            if i < len(pos):
                kw[pos[i]] = (TRUE, a)
            else:
                a2.append(a)
        args, kwargs = a2, kw
    return app(p, *argterms(I, args, kwargs, st))


# a tuple is read like a list
ARRAYLIKE = {'np.digitize', 'np.searchsorted', 'np.interp', 'np.isin', 'np.in1d', 'np.intersect1d', 'np.histogram', 'np.percentile'}

SIGS = {
    'matplotlib.colors.LogNorm': ['vmin', 'vmax'],
    'matplotlib.colors.Normalize': ['vmin', 'vmax'],
    'matplotlib.ticker.LogFormatter': ['base'],
    'matplotlib.ticker.LogLocator': ['base'],
    'cartopy.feature.NaturalEarthFeature': ['category', 'name', 'scale'],
    'cartopy.crs.Geostationary': ['central_longitude', 'satellite_height'],
    'cartopy.crs.Globe': ['datum', 'ellipse', 'semimajor_axis', 'semiminor_axis'],
    'np.linspace': ['start', 'stop', 'num'],
    'xr.concat': ['objs', 'dim'],
    'np.fromiter': ['iter', 'dtype', 'count'],
}

EFFECT_EXT = {'os.makedirs', 'os.remove', 'os.mkdir', 'shutil.copy', 'os.rename'}


def is_effect_ext(p):
    return p in EFFECT_EXT or p.startswith('matplotlib.pyplot.')


def call_term(I, t, args, kwargs, st, eff):
    """call of an unknown callable value"""
    if t.op in ('top', 'undef'):
        return t if t.op == 'top' else tm.top('call of undefined')
    if t.op == 'ite':
        return I.call(IteV(t.args[0], t.args[1], t.args[2]), args, kwargs, st)
    if t.op == 'getitem' and cstr(t.args[1]) is not None:
        name = cstr(t.args[1])
        if eff:
            if name in ('get_xaxis', 'get_yaxis') and not args and not kwargs:
                return I.newop(st, app('getitem', t.args[0], S(name[4:])), eff=True)
            r = app('m.' + name, t.args[0], *argterms(I, args, kwargs, st))
            if not name.startswith('get_'):
                I.log_event(('eff', t.args[0]), r, st)
            return I.newop(st, r, eff=True)
        return call_method(I, t.args[0], name, args, kwargs, st)
    if t.op == 'attr':
        return call_method(I, t.args[0], t.args[1], args, kwargs, st)
    if t.op == 'func':
        f = I.find(t.args[0])
        if f is not None:
            return I.call(f, args, kwargs, st)
    if t.op == 'cls':
        f = I.find(t.args[0])
        if f is not None:
            return I.call(f, args, kwargs, st)
    if t.op == 'ext':
        return I.call(Ext(t.args[0]) if '.' in t.args[0] else Builtin(t.args[0]), args, kwargs, st)
    if t.op == 'lam' and not kwargs:
        r = t
        for a in args:
            r = open_lam(r, val(I, a, st))
        return r
    r = app('call', t, *argterms(I, args, kwargs, st))
    if eff:
        I.log_event(('eff', t), r, st)
    return r


# builtins -------------------------------------------------------------

def call_builtin(I, fv, args, kwargs, st):
    if fv.fn is not None:
        return fv.fn(I, st, args, kwargs)
    f = BI.get(fv.name)
    if f is None:
        if fv.name in EXCS:
            return mk('exc', S(fv.name))
        raise ip.Unsupported('builtin %s' % fv.name)
    return f(I, st, args, kwargs)


EXCS = {n for n in ip.BUILTIN_NAMES if n.endswith('Error') or n.endswith('Exception') or n in ('StopIteration', 'GeneratorExit', 'KeyboardInterrupt')}
BI = {}


def bi(*names):
    def d(f):
        for n in names:
            BI[n] = f
        return f
    return d


@bi('len')
def _b_len(I, st, args, kw):
    v = args[0]
    if type(v) is Ref:
        o = st.heap[v.oid]
        if o.kind == 'inst':
            m, _ = o.cls.lookup('__len__')
            if m is not None:
                return I.call(Bound(m, v), [], {}, st)
        if o.kind == 'dict' and o.base is None:
            n = ZERO
            for p, x in o.items.values():
                n = add(n, ite(p, ONE, ZERO))
            return n
    return length(val(I, v, st))


@bi('range')
def _b_range(I, st, args, kw):
    a = [val(I, x, st) for x in args]
    if len(a) == 1:
        start, stop, step = ZERO, a[0], ONE
    elif len(a) == 2:
        start, stop, step = a[0], a[1], ONE
    else:
        start, stop, step = a
    return rng(start, stop, step)


def rng(start, stop, step):
    if all(x.op == 'n' for x in (start, stop, step)) and all(x.args[0].denominator == 1 for x in (start, stop, step)):
        r = range(int(start.args[0]), int(stop.args[0]), int(step.args[0]))
        if len(r) <= 200:
            return mk('list', *[N(i) for i in r])
    if step is ONE:
        n = sub(stop, start)
        if start is ZERO:
            return app('range', n)
        i = freshsym()
        return mk('list', *star(n, i, (add(start, i),)))
    return app('range3', start, stop, step)


def seq_value(I, v, st):
    """value -> segments usable in a new list"""
    return I.value_segs(v, st)


@bi('list')
def _b_list(I, st, args, kw):
    if not args:
        return I.newlist(st)
    return I.newlist(st, seq_value(I, args[0], st))


@bi('tuple')
def _b_tuple(I, st, args, kw):
    if not args:
        return Tup(())
    return Tup(seq_value(I, args[0], st))


@bi('set', 'frozenset')
def _b_set(I, st, args, kw):
    if not args:
        return I.alloc(st, Obj('set', segs=()))
    return I.alloc(st, Obj('set', segs=seq_value(I, args[0], st)))


@bi('iter', 'reversed_')
def _b_iter(I, st, args, kw):
    v = args[0]
    if len(args) == 1 and not (type(v) is Ref and st.heap[v.oid].kind in ('coro', 'inst')):
        segs = I.iter_segs(v, st)
        if ip.plainsegs(segs):
            return I.alloc(st, Obj('list', segs=tuple(segs), key='iter'))
    return v


@ext('itertools.tee')
def _x_tee(I, st, args, kw):
    n = val(I, args[1], st) if len(args) > 1 else N(2)
    if n.op != 'n':
        raise ip.Unsupported('tee')
    segs = I.iter_segs(args[0], st)
    return Tup([I.alloc(st, Obj('list', segs=tuple(segs), key='iter')) for _ in range(int(n.args[0]))])


@bi('next')
def _b_next(I, st, args, kw):
    v = args[0]
    t = val(I, v, st)
    if type(v) is Ref and st.heap[v.oid].kind == 'coro':
        return NONE
    if type(v) is Ref and st.heap[v.oid].kind == 'list' and st.heap[v.oid].key == 'iter':
        segs = st.heap[v.oid].segs
        if not ip.plainsegs(segs):
            raise ip.Unsupported('next of an iterator of unknown length')
        if segs:
            st.heap[v.oid] = st.heap[v.oid].rep(segs=tuple(segs[1:]))
            return segs[0]
        if len(args) > 1:
            return args[1]
        raise ip.Unsupported('next of an exhausted iterator')
    r = I.getitem(v, ZERO, st)
    if len(args) > 1:
        n = length(t)
        return I.merge_val(gt(n, ZERO), r, args[1])
    return r


@bi('reversed')
def _b_rev(I, st, args, kw):
    segs = I.value_segs(args[0], st)
    if ip.plainsegs(segs):
        return Tup(tuple(reversed(segs)))
    return app('reversed', val(I, args[0], st))


@bi('dict')
def _b_dict(I, st, args, kw):
    d = I.newdict(st)
    if args:
        v = args[0]
        if (type(v) is Ref and st.heap[v.oid].kind == 'dict') or (type(v) is IteV):
            dict_update(I, d, v, st)
        elif type(v) is Ref and st.heap[v.oid].kind == 'op' and not is_pairs(I.freeze(v, st)):
            dict_update(I, d, I.freeze(v, st), st)
        else:
            segs = I.value_segs(v, st)
            if ip.plainsegs(segs):
                for s in segs:
                    kv = I.unpack(s, [None, None], st)
                    I.setitem(d, kv[0], kv[1], st)
            elif type(v) is T and not is_pairs(v):
                dict_update(I, d, v, st)
            else:
                o = st.heap[d.oid]
                st.heap[d.oid] = o.rep(base=app('dictof', mk('list', *[I.freeze(s, st) for s in segs])))
    for k, (p, v) in kw.items():
        if k == '**':
            dict_update(I, d, v, st)
            continue
        o = st.heap[d.oid]
        items = dict(o.items)
        items[S(k)] = (p, v)
        st.heap[d.oid] = o.rep(items=items)
    return d


def is_pairs(t):
    return t.op in ('list', 'tuple', 'zip')


def _dictof(l, *base):
    if l.op == 'list' and tm.concrete(l.args) and all(x.op == 'tuple' and len(x.args) == 2 for x in l.args) and not base:
        d = {}
        for x in l.args:
            d[x.args[0]] = x.args[1]
        return mk('dict', *sorted(d.items(), key=lambda kv: kv[0].id))
    return mk('dictof', l, *base)


tm.SMART['dictof'] = _dictof
tm.NOLIFT.add('dictof')


@bi('enumerate')
def _b_enum(I, st, args, kw):
    start = ZERO
    if len(args) > 1:
        start = val(I, args[1], st)
    if 'start' in kw:
        start = val(I, kw['start'][1], st)
    return zipvals(I, st, [None, args[0]], start)


@bi('zip')
def _b_zip(I, st, args, kw):
    if len(args) == 1 and type(args[0]) is T and args[0].op in ('star', 'spread'):
        return mk('unzip', mk('list', args[0]))
    return zipvals(I, st, list(args), ZERO)


def zipvals(I, st, vals, start):
    """list of tuples; None stands for the counter"""
    segl = []
    for v in vals:
        segl.append(None if v is None else I.iter_segs(v, st))
    known = [s for s in segl if s is not None]
    if all(ip.plainsegs(s) for s in known) and known:
        n = min(len(s) for s in known)
        out = []
        for j in range(n):
            out.append(Tup([add(start, N(j)) if s is None else s[j] for s in segl]))
        return I.newlist(st, out)
    if len(vals) == 2 and vals[0] is None and all(type(x) is T for x in known[0]):
        r = numbered(known[0], start)
        if r is not None:
            return I.newlist(st, r)
    ts = []
    for v, s in zip(vals, segl):
        if v is None:
            ts.append(None)
        else:
            t = val(I, v, st)
            ts.append(t)
    lens = []
    for t, s in zip(ts, segl):
        if t is None:
            continue
        lens.append(length(t))
    # lock-step iteration over sequences of (assumed) equal length
    n = sorted(set(lens), key=lambda x: x.id)
    if len(n) > 1:
        n = [app('min', *n)]
    i = freshsym()
    items = []
    for t, s, v in zip(ts, segl, vals):
        if t is None:
            items.append(add(start, i))
        else:
            items.append(getitem(t, i))
    return I.newlist(st, star(n[0], i, (mk('tuple', *items),)))


def numbered(segs, base):
    """the segments of enumerate(); None when the counter has no closed form"""
    out = []
    for s in segs:
        if s.op in ('star', 'spread'):
            i = freshsym()
            if s.op == 'star':
                n = s.args[0]
                body = tm.open_lam(s.args[1], i).args
                each = ZERO
                for x in body:
                    each = add(each, tm.seg_len(x))
                if i.args[0] in each.fv:
                    return None
            else:
                n = length(s.args[0])
                body = (getitem(s.args[0], i),)
                each = ONE
            sub = numbered(body, add(base, mul(i, each)))
            if sub is None:
                return None
            out.extend(star(n, i, tuple(sub)))
            base = add(base, mul(n, each))
        elif s.op == 'when':
            sub = numbered(s.args[1:], base)
            if sub is None:
                return None
            out.extend(when(s.args[0], tuple(sub)))
            base = add(base, tm.seg_len(s))
        else:
            out.append(mk('tuple', base, s))
            base = add(base, ONE)
    return tuple(out)


@bi('map')
def _b_map(I, st, args, kw):
    f = args[0]
    l = I.newlist(st)
    src = args[1] if len(args) == 2 else zipvals(I, st, list(args[1:]), ZERO)

    def body(v, z):
        if len(args) == 2:
            r = I.call(f, [v], {}, z)
        else:
            r = I.call(f, I.unpack(v, [None] * (len(args) - 1), z), {}, z)
        o = z.heap[l.oid]
        z.heap[l.oid] = o.rep(segs=o.segs + (I.box(r, z),))
    loop_over(I, src, st, body)
    return l


@bi('filter')
def _b_filter(I, st, args, kw):
    f = args[0]
    l = I.newlist(st)

    def body(v, z):
        c = I.truth(I.call(f, [v], {}, z) if f is not NONE else v, z)
        o = z.heap[l.oid]
        z.heap[l.oid] = o.rep(segs=o.segs + when(c, (I.freeze(v, z),)))
    loop_over(I, args[1], st, body)
    return l


def loop_over(I, v, st, body):
    """run body(elem, state) for each element with loop summarisation"""
    class S_(ast.stmt):
        pass
    fid = I.fresh()
    I.frames[fid] = (None, I.modules[next(iter(I.modules))])
    st.envs[fid] = {}
    s = ast.For(target=ast.Name(id='%v', ctx=ast.Store()), iter=None, body=[CallBody(body, fid)], orelse=[], lineno=0, end_lineno=0, col_offset=0)
    mod = I.modules[next(iter(I.modules))]
    fall, r, ex = I.loop_segs(I.iter_segs(v, st), s, st, mod, fid)
    for x in ex:
        if x.kind == 'raise':
            I.pending.append((x.cond, x.value, x.state))
    if r is None:
        raise ip.Unsupported('loop')
    r.envs.pop(fid, None)
    if r is not st:
        st.heap, st.envs = r.heap, r.envs


class CallBody(ast.stmt):
    def __init__(self, fn, fid):
        ast.stmt.__init__(self)
        self.fn = fn
        self.fid = fid


def _s_CallBody(self, s, st, mod, fid):
    s.fn(st.envs[fid]['%v'], st)
    return TRUE, st, []


ip.Interp.s_CallBody = _s_CallBody


def red(kind):
    def f(I, st, args, kw):
        if len(args) > 1:
            return maxmin(kind, [val(I, a, st) for a in args]) if all(True for a in args) else None
        t = val(I, args[0], st)
        key = kw.get('key')
        if key is not None:
            k = I.freeze(key[1], st)
            if t.op in ('list', 'tuple') and t.args and all(x.op == 'n' for x in t.args) and k.op == 'lam':
                return app('getitem', mk('list', *t.args), app('np.arg' + kind, mk('list', *[open_lam(k, x) for x in t.args])))
            return app('a' + kind, t, mk('kw', 'key', k))
        return app('a' + kind, t)
    return f


BI['max'] = red('max')
BI['min'] = red('min')


@bi('sum')
def _b_sum(I, st, args, kw):
    if len(args) == 2 and (type(args[1]) is Ref and st.heap[args[1].oid].kind == 'list' or type(args[1]) is Tup):
        # lists put one after the other
        r = I.newlist(st, I.value_segs(args[1], st))
        loop_over(I, args[0], st, lambda v, z: I.list_extend(r, v, z))
        return r if type(args[1]) is Ref else Tup(st.heap[r.oid].segs)
    r = app('sum', val(I, args[0], st))
    if len(args) > 1:
        r = add(r, val(I, args[1], st))
    return r


@bi('abs')
def _b_abs(I, st, args, kw):
    return app('abs', val(I, args[0], st))


@bi('any')
def _b_any(I, st, args, kw):
    t = val(I, args[0], st)
    if t.op in ('list', 'tuple'):
        return any_list(t)
    return app('any', t)


def any_list(t):
    r = FALSE
    for s in t.args:
        if s.op == 'star':
            i = freshsym()
            b = open_lam(s.args[1], i)
            c = any_list(mk('list', *b.args))
            r = b_or(r, ip.any_star(s.args[0], i, c))
        elif s.op == 'when':
            r = b_or(r, b_and(s.args[0], any_list(mk('list', *s.args[1:]))))
        elif s.op == 'spread':
            r = b_or(r, app('any', s.args[0]))
        else:
            r = b_or(r, tm.truth(s))
    return r


@bi('all')
def _b_all(I, st, args, kw):
    t = val(I, args[0], st)
    return all_(t)


def all_(t):
    if t.op in ('list', 'tuple'):
        segs = []
        for s in t.args:
            if s.op == 'star':
                i = freshsym()
                b = open_lam(s.args[1], i)
                if any(x.op in ('star', 'spread', 'when') for x in b.args):
                    return mk('all', t)
                segs.extend(star(s.args[0], i, tuple(b_not(x) for x in b.args)))
            elif s.op in ('spread', 'when'):
                return mk('all', t)
            else:
                segs.append(b_not(s))
        return b_not(any_list(mk('list', *segs)))
    if t.isb:
        return b_not(app('any', b_not(t)))
    return app('all', t)


@bi('int')
def _b_int(I, st, args, kw):
    if not args:
        return ZERO
    t = val(I, args[0], st)
    if cstr(t) is not None:
        try:
            return N(int(cstr(t)))
        except ValueError:
            pass
    return app('int', t)


@bi('float')
def _b_float(I, st, args, kw):
    t = val(I, args[0], st)
    if cstr(t) is not None:
        try:
            return N(float(cstr(t)))
        except ValueError:
            pass
    return app('float', t)


@bi('str')
def _b_str(I, st, args, kw):
    if not args:
        return S('')
    t = val(I, args[0], st)
    return concat([fmt(t, '')])


@bi('repr')
def _b_repr(I, st, args, kw):
    return app('repr', val(I, args[0], st))


@bi('bool')
def _b_bool(I, st, args, kw):
    return I.truth(args[0], st) if args else FALSE


@bi('round')
def _b_round(I, st, args, kw):
    return app('np.round', *argterms(I, args, kw, st))


@bi('sorted')
def _b_sorted(I, st, args, kw):
    t = val(I, args[0], st)
    return app('sorted', t, *kwterms(I, kw, st))


def _sorted(t, *kw):
    if t.op in ('list', 'tuple') and not kw and all(x.op == 'n' for x in t.args):
        return mk('list', *sorted(t.args, key=lambda x: x.args[0]))
    if t.op in ('list', 'tuple') and not kw and all(cstr(x) is not None for x in t.args):
        return mk('list', *sorted(t.args, key=lambda x: cstr(x)))
    if t.op == 'sorted' and not kw:
        return t
    if t.op == 'set' and not kw:
        if len(t.args) == 1 and t.args[0].op == 'spread':
            return app('np.unique', t.args[0].args[0])
    if not kw and tm.UNORDERED[0] and t.op == 'list' and len(t.args) == 1 and t.args[0].op == 'spread' and t.args[0].args[0].op in tm.SETS[1:]:
        return t
    if t.op in tm.SETS[1:] and not kw:
        # the elements of a set come in some order; this is one
        return mk('list', mk('spread', t))
    return mk('sorted', t, *kw)


tm.SMART['sorted'] = _sorted


@bi('isinstance')
def _b_isinstance(I, st, args, kw):
    v, c = args
    if type(v) is IteV:
        return ite(v.c, _b_isinstance(I, st, [v.a, c], kw), _b_isinstance(I, st, [v.b, c], kw))
    cs = list(c.segs) if type(c) is Tup else [c]
    names = []
    for x in cs:
        if isinstance(x, ClassVal):
            names.append(x.name)
            if type(v) is Ref and st.heap[v.oid].kind == 'inst':
                if x in st.heap[v.oid].cls.mro():
                    return TRUE
        elif isinstance(x, (Builtin,)):
            names.append(x.name)
        elif isinstance(x, Ext):
            names.append(x.path.split('.')[-1])
        else:
            names.append(show(I.freeze(x, st)))
    if type(v) is Ref:
        o = st.heap[v.oid]
        if o.kind in ('list', 'dict', 'set'):
            return TRUE if o.kind in names else FALSE
        if o.kind == 'inst':
            if o.cls.ext_bases():
                pass
            else:
                return FALSE
        if o.cls == 'ds':
            return TRUE if 'Dataset' in names else FALSE
    if type(v) is Tup:
        return TRUE if 'tuple' in names else FALSE
    t = I.freeze(v, st)
    if t.op == 'c':
        return TRUE if t.args[0] in names else FALSE
    if is_str(t):
        return TRUE if 'str' in names else FALSE
    if t.op == 'n':
        return TRUE if (('int' in names and t.args[0].denominator == 1) or 'float' in names) else FALSE
    if t.op in ('list', 'tuple', 'dict'):
        return TRUE if t.op in names else FALSE
    return app('isinstance', t, mkset([S(n) for n in names]))


@bi('hasattr')
def _b_hasattr(I, st, args, kw):
    v = args[0]
    n = cstr(val(I, args[1], st))
    if type(v) is Ref:
        o = st.heap[v.oid]
        if o.kind == 'inst':
            if n in o.ch:
                return TRUE
            m, _ = o.cls.lookup(n)
            if m is not None:
                return TRUE
            if not o.cls.ext_bases() and o.base is None:
                return FALSE
        if o.kind == 'op':
            x = o.ch.get(('item', S(n)))
            if x is not None and I.freeze(x, st) is not I.default_child(o.content, ('item', S(n))):
                return TRUE
    return app('in', val(I, args[1], st), I.freeze(v, st))


@bi('getattr')
def _b_getattr(I, st, args, kw):
    n = val(I, args[1], st)
    s = cstr(n)
    if s is None:
        if n.op == 'ite':
            a = _b_getattr(I, st, [args[0], n.args[1]] + args[2:], kw)
            b = _b_getattr(I, st, [args[0], n.args[2]] + args[2:], kw)
            return I.merge_val(n.args[0], a, b)
        return getitem(I.freeze(args[0], st), n)
    if len(args) > 2:
        c = _b_hasattr(I, st, args[:2], kw)
        if c is FALSE:
            return args[2]
        r = I.getattr(args[0], s, st)
        return I.merge_val(c, r, args[2])
    return I.getattr(args[0], s, st)


@bi('setattr')
def _b_setattr(I, st, args, kw):
    n = val(I, args[1], st)
    s = cstr(n)
    if s is None:
        raise ip.Unsupported('setattr with computed name')
    I.setattr(args[0], s, args[2], st)
    return NONE


@bi('callable')
def _b_callable(I, st, args, kw):
    v = args[0]
    if isinstance(v, (FuncVal, Bound, Partial, ClassVal)):
        return TRUE
    return app('callable', I.freeze(v, st))


@bi('type')
def _b_type(I, st, args, kw):
    v = args[0]
    if type(v) is Ref:
        o = st.heap[v.oid]
        if o.kind == 'inst':
            return o.cls
        if o.kind in ('list', 'dict', 'set'):
            return Builtin(o.kind)
    if type(v) is Tup:
        return Builtin('tuple')
    t = I.freeze(v, st)
    if is_str(t):
        return Builtin('str')
    return app('typeof', t)


@bi('slice')
def _b_slice(I, st, args, kw):
    a = [val(I, x, st) for x in args]
    if len(a) == 1:
        return mkslice(NONE, a[0], NONE)
    if len(a) == 2:
        return mkslice(a[0], a[1], NONE)
    return mkslice(*a)


@bi('open')
def _b_open(I, st, args, kw):
    mode = first(args, kw, 1, 'mode', S('r'))
    a = [first(args, kw, 0, 'file', NONE), mode]
    a = [val(I, x, st) for x in a]
    if a[1].op == 'c' and type(a[1].args[1]) is str:
        a[1] = S(''.join(sorted(a[1].args[1].replace('t', ''))) or 'r')
    return I.newop(st, app('open', *(a + kwterms(I, {k: v for k, v in kw.items() if k not in ('file', 'mode')}, st))))


def file_write(I, f, data, st):
    I.log_event(('eff', S('file')), mk('tuple', I.freeze(f, st), data), st)


@ext('pickle.dump')
def _x_pickle_dump(I, st, args, kw):
    if len(args) < 2:
        return NotImplemented
    file_write(I, args[1], app('pickle.dumps', *argterms(I, [args[0]] + list(args[2:]), kw, st)), st)
    return NONE


@bi('divmod')
def _b_divmod(I, st, args, kw):
    a, b = val(I, args[0], st), val(I, args[1], st)
    return Tup([floordiv(a, b), app('mod', a, b)])


@bi('pow')
def _b_pow(I, st, args, kw):
    return power(val(I, args[0], st), val(I, args[1], st))


@bi('id', 'hash', 'ord', 'chr', 'hex', 'bin')
def _b_misc(I, st, args, kw):
    return app('misc', *argterms(I, args, kw, st))


@bi('vars', 'locals', 'globals', 'dir', 'eval', 'exec', 'compile', 'input', '__import__')
def _b_no(I, st, args, kw):
    raise ip.Unsupported('dynamic builtin')


# functools etc ----------------------------------------------------------

@ext('functools.partial')
def _x_partial(I, st, args, kw):
    f = args[0]
    if isinstance(f, Partial):
        k = dict(f.kwargs)
        k.update(kw)
        return Partial(f.func, list(f.args) + list(args[1:]), k)
    return Partial(f, list(args[1:]), dict(kw))


@ext('functools.wraps')
def _x_wraps(I, st, args, kw):
    return Builtin('wraps', lambda I2, st2, a, k: a[0])


@ext('functools.reduce')
def _x_reduce(I, st, args, kw):
    segs = I.value_segs(args[1], st)
    if ip.plainsegs(segs):
        segs = list(segs)
        acc = args[2] if len(args) > 2 else segs.pop(0)
        for s in segs:
            acc = I.call(args[0], [acc, s], {}, st)
        return acc
    raise ip.Unsupported('reduce')


@ext('copy.copy', 'copy.deepcopy')
def _x_copy(I, st, args, kw):
    return copy_value(I, args[0], st)


def copy_value(I, v, st, deep=True):
    if type(v) is Ref:
        o = st.heap[v.oid]
        if o.kind == 'list':
            return I.newlist(st, o.segs)
        if o.kind == 'dict':
            return I.newdict(st, o.items, o.base)
        if o.kind == 'set':
            return I.alloc(st, Obj('set', segs=o.segs))
        if o.kind == 'inst':
            return I.alloc(st, o.rep())
        if o.kind == 'op':
            ch = {}
            for k, x in o.ch.items():
                ch[k] = copy_value(I, x, st) if deep else x
            return I.alloc(st, o.rep(ch=ch))
        return I.newop(st, I.freeze(v, st), arr=True)
    return v


@ext('itertools.chain')
def _x_chain(I, st, args, kw):
    segs = ()
    for a in args:
        segs += I.value_segs(a, st)
    return I.newlist(st, segs)


@ext('itertools.chain.from_iterable')
def _x_chainfi(I, st, args, kw):
    segs = I.value_segs(args[0], st)
    out = ()
    if ip.plainsegs(segs):
        for s in segs:
            out += I.value_segs(s, st)
        return I.newlist(st, out)
    l = I.newlist(st)

    def body(v, z):
        I.list_extend(l, v, z)
    loop_over(I, args[0], st, body)
    return l


@ext('itertools.product')
def _x_product(I, st, args, kw):
    l = I.newlist(st)
    if len(args) == 1 and set(kw) == {'repeat'} and tm.cint(val(I, kw['repeat'][1], st)) == 2:
        args = [args[0], args[0]]
        kw = {}
    if len(args) != 2 or kw:
        return app('itertools.product', *argterms(I, args, kw, st))

    def outer(a, z):
        def inner(b, y):
            o = y.heap[l.oid]
            y.heap[l.oid] = o.rep(segs=o.segs + (Tup([a, b]),))
        loop_over(I, args[1], z, inner)
    loop_over(I, args[0], st, outer)
    return l


@ext('np.ndindex')
def _x_ndindex(I, st, args, kw):
    if len(args) == 2 and not kw:
        return EXT['itertools.product'](I, st, [BI['range'](I, st, [a], {}) for a in args], {})
    return NotImplemented


@ext('collections.OrderedDict', 'collections.defaultdict')
def _x_odict(I, st, args, kw):
    if args and isinstance(args[0], Builtin) and args[0].name == 'list':
        return I.newdict(st, base=mk('ddict'))
    if args and isinstance(args[0], Builtin):
        return I.newdict(st)
    return BI['dict'](I, st, args, kw)


@ext('datetime.datetime.now')
def _x_now(I, st, args, kw):
    tz = first(args, kw, 0, 'tz', NONE)
    if tz is NONE:
        return app('localnow')
    return app('nowin', val(I, tz, st))


@ext('datetime.datetime.strptime')
def _x_strptime(I, st, args, kw):
    if not kw and len(args) == 2:
        f = cstr(val(I, args[1], st))
        if f is not None and ('%f' in f or '%F' in f):
            # fractions of a second are read from digits of any number
            return app('strptime.f', *[val(I, a, st) for a in args])
    return NotImplemented


@ext('datetime.datetime.utcfromtimestamp')
def _x_utcfrom(I, st, args, kw):
    t = val(I, args[0], st)
    if t.op == 'time.time':
        return app('datetime.datetime.utcnow')
    return app('datetime.datetime.utcfromtimestamp', t)


@ext('datetime.timedelta', 'np.timedelta64', 'pd.Timedelta', 'pd.to_timedelta')
def _x_timedelta(I, st, args, kw):
    unit = {'days': 86400, 'seconds': 1, 'microseconds': '1/1000000', 'milliseconds': '1/1000', 'minutes': 60, 'hours': 3600, 'weeks': 604800}
    t = ZERO
    order = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
    from fractions import Fraction
    kw = dict(kw)
    if len(args) == 2 and cstr(I.freeze(args[1], st)) is not None:
        u = {'s': 'seconds', 'ms': 'milliseconds', 'us': 'microseconds', 'm': 'minutes', 'h': 'hours', 'D': 'days', 'W': 'weeks'}.get(cstr(I.freeze(args[1], st)))
        if u is not None:
            kw[u] = (TRUE, args[0])
            args = []
    for i, a in enumerate(args):
        if i < len(order):
            x = val(I, a, st)
            if is_str(x):
                return app('timedelta', *argterms(I, args, kw, st))
            if i == 1 and cstr(val(I, args[1], st)) is not None:
                return app('timedelta', *argterms(I, args, kw, st))
            kw[order[i]] = (TRUE, a)
    for k, (p, v) in kw.items():
        if k not in unit:
            return app('timedelta', *argterms(I, args, kw, st))
        t = add(t, mul(mk('n', Fraction(unit[k])), val(I, v, st)))
    return mul(t, SEC)


def seconds_of(t):
    """total_seconds of a duration term"""
    return div(t, SEC)


# numpy ------------------------------------------------------------------

def newarr(I, st, t):
    return I.newop(st, t, arr=True)


def first(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    if name in kw:
        return kw[name][1]
    return default


@ext('np.zeros', 'np.ones', 'np.empty')
def _x_zeros(I, st, args, kw, which=None):
    raise AssertionError


def boolish(t):
    # the mask of a masked array
    return t.isb or t.op in ('attr', 'getitem') and (t.args[1] == 'mask' or t.args[1] is S('mask'))


def mkalloc(name):
    def f(I, st, args, kw):
        sh = val(I, first(args, kw, 0, 'shape'), st)
        if sh.op == 'list':
            sh = mk('tuple', *sh.args)
        if sh.op == 'tuple' and len(sh.args) == 1 and sh.args[0].op not in ('star', 'spread', 'when'):
            sh = sh.args[0]
        d = first(args, kw, 1, 'dtype')
        dt = dtype(I, d, st) if d is not None else mk('dt', 'f8')
        t = app(name, sh, dt)
        r = newarr(I, st, t)
        if type(r) is Ref:
            I.made[r.oid] = t
        return r
    return f


for _n in ('np.zeros', 'np.ones', 'np.empty'):
    EXT[_n] = mkalloc(_n)


def mkalike(name):
    def f(I, st, args, kw):
        x = val(I, args[0], st)
        d = first(args, kw, 1, 'dtype')
        if d is not None:
            d = dtype(I, d, st)
            if d.op == 'dt' and d.args[0] == 'bool' and name != 'np.empty_like':
                return newarr(I, st, app(name[:-5], app('len', x) if x.op == 'getitem' else mk('shape', x), d))
            if named_column(x):
                return newarr(I, st, app(name[:-5], app('len', x), d))
            return newarr(I, st, app(name, x, d))
        if x.op in ('np.zeros', 'np.ones', 'np.empty') and len(x.args) == 2:
            return newarr(I, st, app(name[:-5], *x.args))
        return newarr(I, st, app(name, x))
    return f


for _n in ('np.zeros_like', 'np.ones_like', 'np.empty_like'):
    EXT[_n] = mkalike(_n)


@ext('np.full')
def _x_full(I, st, args, kw):
    sh = val(I, first(args, kw, 0, 'shape'), st)
    v = val(I, first(args, kw, 1, 'fill_value'), st)
    d = first(args, kw, 2, 'dtype')
    if d is not None:
        if v in (ZERO, ONE):
            return EXT['np.zeros' if v is ZERO else 'np.ones'](I, st, [args[0] if args else kw['shape'][1], d], {})
        return NotImplemented
    if v.op == 'b':
        return newarr(I, st, app('np.ones' if v is TRUE else 'np.zeros', sh, mk('dt', 'bool')))
    return newarr(I, st, mk('full', sh, v))


@ext('np.ma.masked_array', 'np.ma.array', 'np.ma.MaskedArray')
def _x_masked(I, st, args, kw):
    m = first(args, kw, 1, 'mask')
    if m is None or set(kw) - {'mask'} or len(args) > 2:
        return NotImplemented
    return app('np.ma.masked_array', val(I, args[0], st), val(I, m, st))


@ext('np.ma.masked_where')
def _x_masked_where(I, st, args, kw):
    if kw or len(args) != 2:
        return NotImplemented
    return app('np.ma.masked_array', val(I, args[1], st), val(I, args[0], st))


@ext('np.asarray', 'np.atleast_1d', 'np.asanyarray', 'np.ascontiguousarray')
def _x_asarray(I, st, args, kw):
    if len(args) > 1 and not kw and all(type(a) is Ref and st.heap[a.oid].kind in ('op', 'view') for a in args):
        return Tup([_x_asarray(I, st, [a], {}) for a in args])
    d = first(args, kw, 1, 'dtype')
    if d is not None:
        return newarr(I, st, app('astype', val(I, args[0], st), dtype(I, d, st)))
    v = args[0]
    if type(v) is Ref and st.heap[v.oid].kind in ('op', 'view'):
        o = st.heap[v.oid]
        if o.kind == 'op' and not o.arr and o.cls is None:
            st.heap[v.oid] = o.rep(arr=True)
        return v
    t = val(I, v, st)
    return newarr(I, st, mk('list', *t.args) if t.op == 'tuple' else t)


def counted(I, t):
    """an array of numbers worked out from their place in it"""
    if t.op == 'list' and len(t.args) == 1 and t.args[0].op == 'star':
        n, lam = t.args[0].args
        i = tm.freshsym()
        r = tm.open_lam(lam, i)
        if r.op == 'segs' and len(r.args) == 1 and r.args[0].op == 'poly':
            v = r.args[0]
            if i in [a for m, c in v.args for a, e in m] and all(a is i or I.number(a) and i.args[0] not in a.fv for m, c in v.args for a, e in m):
                return tm.subst(v, {i: app('range', n)})
    return t


@ext('np.array', 'np.copy')
def _x_array(I, st, args, kw):
    d = first(args, kw, 1, 'dtype')
    t = val(I, args[0], st)
    if t.op == 'tuple':
        t = mk('list', *t.args)
    t = counted(I, t)
    if d is not None:
        t = app('astype', t, dtype(I, d, st))
    if 'order' in kw:
        pass
    return newarr(I, st, t)


@ext('np.fromiter')
def _x_fromiter(I, st, args, kw):
    t = val(I, first(args, kw, 0, 'iter'), st)
    d = first(args, kw, 1, 'dtype')
    c = first(args, kw, 2, 'count')
    c = val(I, c, st) if c is not None else None
    short = tm.cnum(tm.sub(c, tm.length(t))) if c is not None and tm.cnum(c) is None else None
    if short is not None and short < 0:
        t = app('getitem', t, mk('slice', NONE, c, NONE))
    return newarr(I, st, app('astype', t, dtype(I, d, st)))


@ext('np.dtype')
def _x_dtype(I, st, args, kw):
    return dtype(I, args[0], st)


@ext('np.arange')
def _x_arange(I, st, args, kw):
    a = [val(I, x, st) for x in args]
    d = kw.get('dtype')
    start = ZERO
    step = ONE
    if 'start' in kw:
        start = val(I, kw['start'][1], st)
    if 'stop' in kw:
        a = a + [val(I, kw['stop'][1], st)] if a else [val(I, kw['stop'][1], st)]
    if 'step' in kw:
        step = val(I, kw['step'][1], st)
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    if step is ONE and (is_int(sub(stop, start)) or start is ZERO):
        t = rng(start, stop, step)
    else:
        t = app('np.arange', start, stop, step)
    if d is not None:
        dt = dtype(I, d[1], st)
        if not (dt.op == 'dt' and dt.args[0].startswith('i') and t.op in ('range', 'list')):
            t = app('astype', t, dt)
    return newarr(I, st, t)


def red_ext(op):
    def f(I, st, args, kw):
        if args and type(args[0]) is IteV:
            v = args[0]
            return I.merge_val(v.c, f(I, st, [v.a] + list(args[1:]), kw), f(I, st, [v.b] + list(args[1:]), kw))
        return reduce_(I, op, args[0], args[1:], kw, st)
    return f


def reduce_(I, op, x, args, kw, st):
    t = val(I, x, st)
    kw = dict(kw)
    kw.pop('keep_attrs', None)
    extra = []
    if args:
        kw['axis'] = (TRUE, args[0])
    if 'dim' in kw:
        extra.append(mk('kw', 'axis', val(I, kw.pop('dim')[1], st)))
    for k in sorted(kw):
        v = val(I, kw[k][1], st)
        if k == 'axis' and v is NONE:
            continue
        extra.append(mk('kw', k, v))
    if op == 'any' and not extra:
        if t.op in ('list', 'tuple'):
            return any_list(t)
        return app('any', t)
    if op == 'all' and not extra:
        return all_(t)
    return app(op, t, *extra)


for _n, _o in (('sum', 'sum'), ('nansum', 'nansum'), ('min', 'amin'), ('amin', 'amin'), ('max', 'amax'), ('amax', 'amax'),
               ('mean', 'mean'), ('any', 'any'), ('all', 'all'), ('nanmin', 'nanmin'), ('nanmax', 'nanmax'), ('std', 'std'), ('median', 'median'), ('prod', 'prod')):
    EXT['np.' + _n] = red_ext(_o)


def un(op, fn=None):
    def f(I, st, args, kw):
        if kw or len(args) != 1:
            return NotImplemented
        t = val(I, args[0], st)
        r = fn(t) if fn else app(op, t)
        if I.is_arr(args[0], st):
            return newarr(I, st, r) if not r.isb else r
        return r
    return f


EXT['np.abs'] = EXT['np.absolute'] = EXT['np.fabs'] = EXT['math.fabs'] = un('abs')
EXT['np.sqrt'] = EXT['math.sqrt'] = un(None, lambda t: power(t, mk('n', Fraction(1, 2))))
EXT['np.square'] = un(None, lambda t: power(t, N(2)))
EXT['np.radians'] = EXT['np.deg2rad'] = EXT['math.radians'] = un(None, lambda t: mul(t, div(PI, N(180))))
EXT['np.degrees'] = EXT['np.rad2deg'] = EXT['math.degrees'] = un(None, lambda t: mul(t, div(N(180), PI)))
EXT['np.rint'] = EXT['np.around'] = un('np.round')
EXT['np.isnan'] = EXT['math.isnan'] = un('isnan')
EXT['np.floor'] = EXT['math.floor'] = un('floor')
EXT['np.logical_not'] = un(None, lambda t: b_not(t))
EXT['np.negative'] = un(None, neg)
EXT['np.flipud'] = None
EXT['np.exp'] = un('np.exp')
for _n in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'log', 'log10', 'ceil', 'sign', 'trunc'):
    EXT['np.' + _n] = un('np.' + _n)
    EXT['math.' + _n] = un('np.' + _n)
EXT['math.atan'] = un('np.arctan')
EXT['math.asin'] = un('np.arcsin')


@ext('np.diff')
def _x_diff(I, st, args, kw):
    if kw or len(args) != 1:
        return NotImplemented
    t = val(I, args[0], st)
    return newarr(I, st, sub(getitem(t, mk('slice', ONE, NONE, NONE)), getitem(t, mk('slice', NONE, N(-1), NONE))))


@ext('np.ptp')
def _x_ptp(I, st, args, kw):
    if kw or len(args) != 1:
        return NotImplemented
    t = val(I, args[0], st)
    return sub(app('amax', t), app('amin', t))


@ext('np.flip')
def _x_flip(I, st, args, kw):
    ax = first(args, kw, 1, 'axis')
    if ax is None or val(I, ax, st) is not ZERO:
        return NotImplemented
    return _x_flipud(I, st, args[:1], {})


@ext('itertools.islice')
def _x_islice(I, st, args, kw):
    if kw or not 2 <= len(args) <= 4 or not (type(args[0]) is Tup or type(args[0]) is T or type(args[0]) is Ref and st.heap[args[0].oid].kind in ('list', 'op', 'view')):
        return NotImplemented
    a = [val(I, x, st) for x in args[1:]]
    a = [NONE] + a if len(a) == 1 else a
    a = a + [NONE] * (3 - len(a))
    t = val(I, args[0], st)
    if t.op in ('iter', 'gen') or not all(x is NONE or x.op == 'n' for x in a):
        return NotImplemented
    return I.getitem(args[0], mk('slice', *a), st)


@ext('os.path.split')
def _x_pathsplit(I, st, args, kw):
    t = val(I, args[0], st)
    return Tup([app('os.path.dirname', t), app('os.path.basename', t)])


@ext('np.fliplr')
def _x_fliplr(I, st, args, kw):
    return app('transpose', app('flipud', app('transpose', val(I, args[0], st))))


@ext('np.flipud')
def _x_flipud(I, st, args, kw):
    v = args[0]
    if type(v) is Ref and st.heap[v.oid].kind in ('op', 'view'):
        return I.alloc(st, Obj('view', parent=v, key='flipud'))
    return app('flipud', val(I, v, st))


@ext('np.transpose')
def _x_transpose(I, st, args, kw):
    v = args[0]
    if len(args) > 1 or kw:
        return NotImplemented
    if type(v) is Ref and st.heap[v.oid].kind in ('op', 'view'):
        return I.alloc(st, Obj('view', parent=v, key='T'))
    return app('transpose', val(I, v, st))


def bin_(fn):
    def f(I, st, args, kw):
        if len(args) != 2:
            return NotImplemented
        r = fn(val(I, args[0], st), val(I, args[1], st))
        if 'where' in kw or 'out' in kw:
            return NotImplemented
        if type(r) is T and not r.isb and (I.is_arr(args[0], st) or I.is_arr(args[1], st)):
            return newarr(I, st, r)
        return r
    return f


EXT['np.logical_and'] = bin_(b_and)
EXT['np.logical_or'] = bin_(b_or)
EXT['np.add'] = bin_(add)



@ext('np.add.at')
def _x_addat(I, st, args, kw):
    # places given once each, as in a[k] += v
    cur = I.getitem(args[0], args[1], st)
    I.setitem(args[0], args[1], I.binop('Add', cur, args[2], st), st)
    return NONE


@ext('np.putmask')
@ext('np.place')
def _x_putmask(I, st, args, kw):
    # one value for all places
    if len(args) != 3 or kw or type(args[0]) is not Ref or I.is_arr(args[2], st) or type(args[2]) in (Ref, Tup):
        return smash(I, st, args)
    I.setitem(args[0], args[1], args[2], st)
    return NONE


@ext('np.copyto')
def _x_copyto(I, st, args, kw):
    if len(args) != 2 or set(kw) - {'where'} or type(args[0]) is not Ref or I.is_arr(args[1], st) or type(args[1]) in (Ref, Tup):
        return smash(I, st, args)
    w = kw['where'] if 'where' in kw else mk('slice', NONE, NONE, NONE)
    I.setitem(args[0], w[1] if type(w) is tuple else w, args[1], st)
    return NONE


def smash(I, st, args):
    if args and type(args[0]) is Ref and I.is_arr(args[0], st):
        I.setcontent(args[0], tm.top('filled in place'), st)
    return NONE


for _n in ('np.put', 'np.put_along_axis', 'np.fill_diagonal', 'np.random.shuffle', 'np.subtract.at', 'np.multiply.at', 'np.maximum.at',
           'np.minimum.at'):
    EXT[_n] = lambda I, st, args, kw: smash(I, st, args)

EXT['np.subtract'] = bin_(sub)
EXT['np.multiply'] = bin_(mul)
EXT['np.divide'] = EXT['np.true_divide'] = bin_(div)
EXT['np.floor_divide'] = bin_(floordiv)
EXT['np.mod'] = EXT['np.remainder'] = bin_(lambda a, b: app('mod', a, b))
EXT['np.power'] = bin_(power)
EXT['np.maximum'] = EXT['np.fmax'] = bin_(lambda a, b: maxmin_t('max', a, b))
EXT['np.minimum'] = EXT['np.fmin'] = bin_(lambda a, b: maxmin_t('min', a, b))
EXT['np.equal'] = bin_(lambda a, b: eq(a, b))
EXT['np.not_equal'] = bin_(lambda a, b: b_not(eq(a, b)))
EXT['np.greater'] = bin_(lambda a, b: gt(a, b))
EXT['np.less'] = bin_(lambda a, b: gt(b, a))
EXT['np.greater_equal'] = bin_(lambda a, b: b_not(gt(b, a)))
EXT['np.less_equal'] = bin_(lambda a, b: b_not(gt(a, b)))
EXT['np.bitwise_and'] = bin_(lambda a, b: arith('BitAnd', a, b))
EXT['np.arctan2'] = EXT['math.atan2'] = bin_(lambda a, b: app('np.arctan', div(a, b)))  # up to half a turn
EXT['np.bitwise_or'] = bin_(lambda a, b: arith('BitOr', a, b))
EXT['operator.add'] = bin_(add)
EXT['operator.mul'] = bin_(mul)


def maxmin_t(kind, a, b):
    return app(kind, a, b)


@ext('np.clip')
def _x_clip(I, st, args, kw):
    x = val(I, first(args, kw, 0, 'a'), st)
    lo = first(args, kw, 1, 'a_min')
    hi = first(args, kw, 2, 'a_max')
    return clip(I, x, lo, hi, st)


def clip(I, x, lo, hi, st):
    r = x
    if lo is not None and lo is not NONE:
        r = app('max', r, val(I, lo, st))
    if hi is not None and hi is not NONE:
        r = app('min', r, val(I, hi, st))
    return r


@ext('np.where')
def _x_where(I, st, args, kw):
    c = val(I, args[0], st)
    if len(args) == 3:
        return ite(tm.truth(c), val(I, args[1], st), val(I, args[2], st))
    return Tup([app('where', c)])


@ext('np.nonzero', 'np.flatnonzero')
def _x_nonzero(I, st, args, kw):
    return Tup([app('where', val(I, args[0], st))])


@ext('np.flatnonzero')
def _x_fnonzero(I, st, args, kw):
    return app('where', val(I, args[0], st))


def _unique(t):
    if t.op == 'np.unique':
        return t
    if t.op in ('set',) and len(t.args) == 1 and t.args[0].op == 'spread':
        return app('np.unique', t.args[0].args[0])
    if t.op in ('list', 'tuple') and len(t.args) == 1 and t.args[0].op == 'spread':
        return app('np.unique', t.args[0].args[0])
    if t.op == 'sorted' and len(t.args) == 1:
        return app('np.unique', t.args[0])
    if tm.UNORDERED[0] and t.op in ('list', 'tuple') and len(t.args) == 1 and t.args[0].op == 'spread' and t.args[0].args[0].op in tm.SETS[1:]:
        return t
    return mk('np.unique', t)


tm.SMART['np.unique'] = _unique


@ext('np.intersect1d')
def _x_intersect(I, st, args, kw):
    if kw or len(args) != 2:
        return NotImplemented
    if tm.UNORDERED[0]:
        return I.newlist(st, (mk('spread', app('setand', val(I, args[0], st), val(I, args[1], st))),))
    return app('np.unique', mk('list', mk('spread', app('setand', val(I, args[0], st), val(I, args[1], st)))))


@ext('np.sort')
def _x_sort(I, st, args, kw):
    if kw or len(args) != 1:
        return NotImplemented
    return newarr(I, st, app('sorted', val(I, args[0], st)))


@ext('np.union1d')
def _x_union(I, st, args, kw):
    if kw or len(args) != 2:
        return NotImplemented
    return app('np.unique', mk('list', mk('spread', app('setor', val(I, args[0], st), val(I, args[1], st)))))


@ext('np.setdiff1d')
def _x_setdiff1d(I, st, args, kw):
    if kw or len(args) != 2:
        return NotImplemented
    return app('np.unique', mk('list', mk('spread', app('setdiff', val(I, args[0], st), val(I, args[1], st)))))


@ext('np.unique')
def _x_unique(I, st, args, kw):
    t = val(I, args[0], st)
    if not kw and len(args) == 1:
        return app('np.unique', t)
    flags = [k for k in ('return_index', 'return_inverse', 'return_counts') if k in kw and val(I, kw[k][1], st) is TRUE]
    u = app('np.unique', t)
    if not flags:
        return u
    return Tup([u] + [app('np.unique.' + k, t) for k in flags])


@ext('np.isclose', 'np.allclose')
def _x_isclose(I, st, args, kw):
    return app('np.isclose', *argterms(I, args, kw, st))


@ext('np.hstack', 'np.concatenate')
def _x_hstack(I, st, args, kw):
    kw = dict(kw)
    if 'axis' in kw and val(I, kw['axis'][1], st) is ZERO:
        kw.pop('axis')
    if len(args) > 1 and val(I, args[1], st) is ZERO:
        args = args[:1]
    if kw or len(args) > 1:
        return NotImplemented
    segs = I.value_segs(args[0], st)
    out = []
    for s in segs:
        out.append(I.freeze(s, st))
    return newarr(I, st, app('np.hstack', mk('list', *[strip(x) for x in out])))


@ext('np.vstack')
def _x_vstack(I, st, args, kw):
    return newarr(I, st, app('np.vstack', val(I, args[0], st)))


@ext('np.meshgrid')
def _x_meshgrid(I, st, args, kw):
    if len(args) != 2 or set(kw) - {'indexing'}:
        return NotImplemented
    ind = cstr(val(I, kw['indexing'][1], st)) if 'indexing' in kw else 'xy'
    x, y = val(I, args[0], st), val(I, args[1], st)
    if ind == 'ij':
        return I.newlist(st, [app('mesh', x, y, ZERO), app('mesh', y, x, ONE)])
    return I.newlist(st, [app('mesh', x, y, ONE), app('mesh', y, x, ZERO)])


# xarray / pandas ------------------------------------------------------------

def mkds(I, st, t, ch=None):
    r = I.newop(st, t, ch=ch)
    st.heap[r.oid] = st.heap[r.oid].rep(cls='ds')
    return r


@ext('xr.open_dataset')
def _x_open_dataset(I, st, args, kw):
    return mkds(I, st, app('xr.open_dataset', *argterms(I, args, kw, st)))


@ext('np.einsum')
def _x_einsum(I, st, args, kw):
    if len(args) == 3 and not kw:
        a, b = val(I, args[1], st), val(I, args[2], st)
        if a.op == b.op == 'list' and len(a.args) == 2 and a.args[0] is ZERO and len(b.args) == 1 and a.args[1] is b.args[0] and a.args[1].op != 'n':
            return newarr(I, st, app('sum', val(I, args[0], st), mk('kw', 'axis', ZERO)))
    return NotImplemented


@ext('xr.Dataset.from_dict')
def _x_from_dict(I, st, args, kw):
    if len(args) != 1 or kw or type(args[0]) is not Ref or st.heap[args[0].oid].kind != 'dict':
        return NotImplemented
    o = st.heap[args[0].oid]
    if o.base is not None:
        return NotImplemented
    out = {}
    for k, (p, v) in o.items.items():
        if p is not TRUE or type(v) is not Ref or st.heap[v.oid].kind != 'dict' or st.heap[v.oid].base is not None:
            return NotImplemented
        it = st.heap[v.oid].items
        if set(it) - {S('attrs')} != {S('dims'), S('data')} or any(q is not TRUE for q, _ in it.values()):
            return NotImplemented
        out[k] = (TRUE, Tup([it[n][1] for n in (S('dims'), S('data'), S('attrs')) if n in it]))
    return EXT['xr.Dataset'](I, st, [I.newdict(st, out)], {})


@ext('xr.Dataset')
def _x_dataset(I, st, args, kw):
    d = first(args, kw, 0, 'data_vars')
    r = mkds(I, st, mk('emptyds'))
    c = first(args, kw, 1, 'coords')
    at = first(args, kw, 2, 'attrs')
    for src, tag in ((d, 'item'), (c, 'item')):
        if src is None:
            continue
        if type(src) is Ref and st.heap[src.oid].kind == 'dict' and st.heap[src.oid].base is None:
            for k, (p, v) in st.heap[src.oid].items.items():
                if p is not TRUE:
                    v = I.merge_val(p, v, ip.ABSENT)
                o = st.heap[r.oid]
                ch = dict(o.ch)
                ch[('item', k)] = ds_value(I, v, st)
                st.heap[r.oid] = o.rep(ch=ch)
        else:
            o = st.heap[r.oid]
            st.heap[r.oid] = o.rep(content=app('dsof', o.content, I.freeze(src, st)))
    if c is not None and type(c) is Ref and st.heap[c.oid].kind == 'dict':
        o = st.heap[r.oid]
        ch = dict(o.ch)
        ch[('attr', 'coordnames')] = mkset(list(st.heap[c.oid].items))
        st.heap[r.oid] = o.rep(ch=ch)
    o = st.heap[r.oid]
    ch = dict(o.ch)
    ch[('attr', 'attrs')] = I.box(at, st) if at is not None else I.newdict(st)
    st.heap[r.oid] = o.rep(ch=ch)
    return r


@ext('xr.DataArray')
def _x_dataarray(I, st, args, kw):
    d = first(args, kw, 0, 'data', NONE)
    ch = {}
    dims = first(args, kw, 2, 'dims')
    coords = first(args, kw, 1, 'coords')
    if dims is not None:
        ch[('attr', 'dims')] = dims_norm(I.freeze(dims, st))
    if coords is not None:
        ch[('attr', 'coords')] = coords
    for k in ('attrs', 'name'):
        if k in kw:
            v = kw[k][1]
            ch[('attr', k)] = I.box(v, st)
    ch[('attr', 'encoding')] = I.newdict(st)
    return I.newop(st, app('dafill', val(I, d, st)), arr=True, ch=ch)


@smart('dafill')
def _dafill(t):
    # one spelling for an array that holds a single constant throughout
    if t.op == 'repeat' and t.args[0].op == 'list' and len(t.args[0].args) == 1 and is_const(t.args[0].args[0]):
        return mk('fill', t.args[1], t.args[0].args[0])
    if t.op == 'list' and len(t.args) == 1 and t.args[0].op == 'star':
        n, lam = t.args[0].args
        b = lam.args[0]
        if b.op == 'segs' and len(b.args) == 1 and type(b.args[0]) is T and is_const(b.args[0]):
            return mk('fill', n, b.args[0])
    if t.op in ('np.zeros', 'np.ones') and t.args[0].op not in ('tuple', 'list'):
        n = t.args[0]
        return mk('fill', app('len', n.args[0]) if n.op == 'shape' else n, N(int(t.op == 'np.ones')))
    if t.op in ('np.zeros_like', 'np.ones_like'):
        return mk('fill', app('len', t.args[0]), N(int(t.op == 'np.ones_like')))
    if t.op == 'full' and t.args[0].op not in ('tuple', 'list') and is_const(t.args[1]):
        return mk('fill', *t.args)
    return t


# ---------------------------------------------------------------- methods

MM = {}


def meth(*names):
    def d(f):
        for n in names:
            MM[n] = f
        return f
    return d


EFFECT_METHODS = {'send', 'write', 'close', 'to_netcdf', 'savefig', 'to_csv', 'writelines'}


def call_method(I, recv, name, args, kwargs, st):
    if type(recv) is IteV:
        return I.call(IteV(recv.c, I.getattr(recv.a, name, st), I.getattr(recv.b, name, st)), args, kwargs, st)
    if type(recv) is Tup:
        f = SEQ.get(name)
        if f:
            return f(I, recv, None, args, kwargs, st)
        raise ip.Unsupported('tuple method ' + name)
    if type(recv) is Ref:
        o = st.heap[recv.oid]
        if o.kind == 'list':
            f = SEQ.get(name)
            if o.loose and name in ('append', 'extend', 'insert', 'pop', 'sort', 'reverse', 'remove', 'clear'):
                raise ip.Unsupported('changing a list kept under a computed key')
            if f:
                return f(I, recv, o, args, kwargs, st)
            if name == 'copy':
                return I.newlist(st, o.segs)
            return app('m.' + name, I.freeze(recv, st), *argterms(I, args, kwargs, st))
        if o.kind == 'dict':
            I.settle(recv, st)
            o = st.heap[recv.oid]
            f = DCT.get(name)
            if f:
                return f(I, recv, o, args, kwargs, st)
            raise ip.Unsupported('dict method ' + name)
        if o.kind == 'set':
            return set_method(I, recv, o, name, args, kwargs, st)
        if o.kind == 'coro':
            if name in ('next', '__next__', 'close'):
                if name == 'close':
                    I.log_event(('coro', o.content), mk('closed'), st)
                return NONE
            if name == 'send':
                I.log_event(('coro', o.content), I.freeze(args[0], st), st)
                return NONE
    if type(recv) is T and is_str(recv):
        r = str_method(I, recv, name, args, kwargs, st)
        if r is not None:
            return r
    f = MM.get(name)
    if f is not None:
        r = f(I, recv, args, kwargs, st)
        if r is not NotImplemented:
            return r
    if type(recv) is Ref and st.heap[recv.oid].kind == 'op' and st.heap[recv.oid].eff:
        t = I.freeze(recv, st)
        r = app('m.' + name, st.heap[recv.oid].content, *argterms(I, args, kwargs, st))
        I.log_event(('eff', st.heap[recv.oid].content), r, st)
        return I.newop(st, r, eff=True)
    if name == 'write' and type(recv) is Ref and len(args) == 1 and not kwargs:
        t = I.freeze(recv, st)
        if t.op == 'open':
            file_write(I, recv, I.freeze(args[0], st), st)
            return app('len', I.freeze(args[0], st))
    if name == 'to_netcdf':
        I.log_event(('eff', S('to_netcdf')), Tup([first(args, kwargs, 0, 'path', NONE), I.freeze(recv, st)] + kwterms(I, {k: v for k, v in kwargs.items() if k != 'path'}, st)), st)
        return NONE
    if name in EFFECT_METHODS:
        t = I.freeze(recv, st)
        a = [I.freeze(x, st) for x in args]
        I.log_event(('eff', t), mk('m.' + name, *(a + kwterms(I, kwargs, st))), st)
        return NONE
    t = I.freeze(recv, st)
    return app('m.' + name, t, *argterms(I, args, kwargs, st))


def set_method(I, ref, o, name, args, kw, st):
    if name == 'add':
        st.heap[ref.oid] = o.rep(segs=o.segs + (args[0],))
        return NONE
    if name == 'update':
        st.heap[ref.oid] = o.rep(segs=o.segs + I.value_segs(args[0], st))
        return NONE
    t = I.freeze(ref, st)
    if name in ('intersection',):
        return app('setand', *sorted([t, val(I, args[0], st)], key=lambda z: z.id))
    if name in ('difference',):
        return app('setdiff', t, val(I, args[0], st))
    if name == 'symmetric_difference':
        return app('setxor', t, val(I, args[0], st))
    if name == 'union':
        return I.alloc(st, Obj('set', segs=o.segs + I.value_segs(args[0], st)))
    return app('m.' + name, t, *argterms(I, args, kw, st))


@meth('groupby')
def _m_groupby(I, recv, args, kw, st):
    if not args and len(kw) == 1 and next(iter(kw)) in ('by', 'group') and next(iter(kw.values()))[0] is TRUE:
        return app('m.groupby', val(I, recv, st), val(I, next(iter(kw.values()))[1], st))
    return NotImplemented


SEQ = {}
DCT = {}


def seq(n):
    def d(f):
        SEQ[n] = f
        return f
    return d


def dct(n):
    def d(f):
        DCT[n] = f
        return f
    return d


@seq('append')
def _l_append(I, ref, o, args, kw, st):
    st.heap[ref.oid] = o.rep(segs=o.segs + (I.box(args[0], st),))
    return NONE


@seq('extend')
def _l_extend(I, ref, o, args, kw, st):
    I.list_extend(ref, args[0], st)
    return NONE


@seq('insert')
def _l_insert(I, ref, o, args, kw, st):
    k = cint(val(I, args[0], st))
    if k is None or not (ip.plainsegs(o.segs) or k == 0):
        raise ip.Unsupported('insert')
    l = list(o.segs)
    l.insert(k, I.box(args[1], st))
    st.heap[ref.oid] = o.rep(segs=tuple(l))
    return NONE


@seq('pop')
def _l_pop(I, ref, o, args, kw, st):
    k = cint(val(I, args[0], st)) if args else -1
    segs = o.segs
    if k is not None and segs:
        if k >= 0 and len(segs) > k and ip.plainsegs(segs[:k + 1]):
            st.heap[ref.oid] = o.rep(segs=segs[:k] + segs[k + 1:])
            return segs[k]
        if k < 0 and len(segs) >= -k and ip.plainsegs(segs[k:]):
            l = list(segs)
            v = l.pop(k)
            st.heap[ref.oid] = o.rep(segs=tuple(l))
            return v
    raise ip.Unsupported('list pop')


@seq('index')
def _l_index(I, ref, o, args, kw, st):
    t, x = I.freeze(ref, st), val(I, args[0], st)
    if len(args) == 1 and is_const(x) and t.op in ('list', 'tuple') and all(is_const(a) for a in t.args) and x in t.args:
        return N(t.args.index(x))
    return app('m.index', t, x)


@seq('sort')
def _l_sort(I, ref, o, args, kw, st):
    t = app('sorted', I.freeze(ref, st), *kwterms(I, kw, st))
    st.heap[ref.oid] = o.rep(segs=spread_segs(t))
    return NONE


@seq('reverse')
def _l_reverse(I, ref, o, args, kw, st):
    if ip.plainsegs(o.segs):
        st.heap[ref.oid] = o.rep(segs=tuple(reversed(o.segs)))
        return NONE
    raise ip.Unsupported('reverse')


@seq('count')
def _l_count(I, ref, o, args, kw, st):
    return app('m.count', I.freeze(ref, st), val(I, args[0], st))


@seq('send')
def _l_send(I, ref, o, args, kw, st):
    return NONE


SEQ['close'] = _l_send
SEQ['next'] = SEQ['__next__'] = lambda I, ref, o, args, kw, st: I.getitem(ref, ZERO, st)


@dct('get')
def _d_get(I, ref, o, args, kw, st):
    return dict_get(I, ref, args[0], st, args[1] if len(args) > 1 else NONE, True)


@dct('pop')
def _d_pop(I, ref, o, args, kw, st):
    k = I.freeze(args[0], st)
    if len(args) > 1:
        v = dict_get(I, ref, args[0], st, args[1], True)
    else:
        v = dict_get(I, ref, args[0], st)
    dict_remove(I, ref, k, st)
    return v


@dct('setdefault')
def _d_setdefault(I, ref, o, args, kw, st):
    k = I.freeze(args[0], st)
    d = args[1] if len(args) > 1 else NONE
    v = dict_get(I, ref, args[0], st, d, True)
    I.setitem(ref, k, v, st)
    return v


@dct('update')
def _d_update(I, ref, o, args, kw, st):
    if args:
        v = args[0]
        if not ((type(v) is Ref and st.heap[v.oid].kind == 'dict') or type(v) is IteV):
            v = BI['dict'](I, st, [v], {})
        dict_update(I, ref, v, st)
    for k, (p, v) in kw.items():
        if k == '**':
            dict_update(I, ref, v, st)
        else:
            I.setitem(ref, S(k), v, st)
    return NONE


@dct('keys')
def _d_keys(I, ref, o, args, kw, st):
    if o.base is None:
        segs = ()
        for k, (p, v) in o.items.items():
            segs += when(p, (k,))
        return I.newlist(st, segs)
    return app('keys', I.freeze(ref, st))


def _keys(t):
    if t.op == 'dict':
        out = ()
        for k, v in t.args:
            out += (k,)
        return mk('list', *out)
    if t.op == 'dictof' and len(t.args) == 1:
        l = t.args[0]
        if l.op == 'list' and len(l.args) == 1 and l.args[0].op == 'star':
            i = freshsym()
            b = open_lam(l.args[0].args[1], i)
            return mk('list', *star(l.args[0].args[0], i, tuple(x.args[0] for x in b.args))) if all(x.op == 'tuple' for x in b.args) else mk('keys', t)
    return mk('keys', t)


def groups_of(t):
    """the values that were grouped, for the groups of a grouping"""
    if t.op == 'getitem' and t.args[0].op == 'm.groupby' and len(t.args[0].args) == 1 and cstr(t.args[1]) == 'groups':
        return t.args[0].args[0]


def _keys_collect(t):
    g = groups_of(t)
    if g is not None:
        return app('np.unique', g)
    if t.op == 'collect' and t.args[0].op != 'ddict':
        return app('keys', t.args[0])
    if t.op == 'ddict':
        return mk('list')
    return _keys(t)


def _collect(base, log):
    if log.op == 'list' and not log.args:
        return base
    return mk('collect', base, log)


tm.SMART['keys'] = _keys_collect
tm.SMART['collect'] = _collect
tm.NOLIFT.add('collect')


@dct('values')
def _d_values(I, ref, o, args, kw, st):
    if o.base is None and all(p is TRUE for p, v in o.items.values()):
        return I.newlist(st, [v for p, v in o.items.values()])
    t = I.freeze(ref, st)
    return map_dict(t, lambda k, v: v)


@dct('items')
def _d_items(I, ref, o, args, kw, st):
    if o.base is None:
        segs = []
        for k, (p, v) in o.items.items():
            if p is TRUE:
                segs.append(Tup([k, v]))
            else:
                segs.extend(when(p, (I.freeze(Tup([k, v]), st),)))
        return I.newlist(st, segs)
    t = I.freeze(ref, st)
    return map_dict(t, lambda k, v: mk('tuple', k, v))


def map_dict(t, f):
    ks = app('keys', t)
    if ks.op == 'list' and tm.concrete(ks.args):
        return mk('list', *[f(k, getitem(t, k)) for k in ks.args])
    i = freshsym()
    k = getitem(ks, i)
    return mk('list', *star(length(ks), i, (f(k, getitem(t, k)),)))


@dct('copy')
def _d_copy(I, ref, o, args, kw, st):
    return I.newdict(st, o.items, o.base)


@dct('clear')
def _d_clear(I, ref, o, args, kw, st):
    st.heap[ref.oid] = o.rep(items={}, base=None)
    return NONE


def str_method(I, t, name, args, kw, st):
    s = cstr(t)
    if name == 'format':
        if s is not None:
            return str_format(I, s, args, kw, st)
        return None
    if name == 'join':
        segs = I.value_segs(args[0], st)
        if ip.plainsegs(segs) and s is not None:
            parts = []
            for i, x in enumerate(segs):
                if i:
                    parts.append(t)
                parts.append(I.freeze(x, st))
            return concat(parts) if parts else S('')
        return app('m.join', t, mk('list', *[I.freeze(x, st) for x in segs]))
    if s is not None and not kw:
        a = [val(I, x, st) for x in args]
        try:
            pa = [pyval(x) if x.op != 'tuple' else tuple(pyval(y) for y in x.args) for x in a]
        except KeyError:
            return None
        if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'split', 'startswith', 'endswith', 'title', 'zfill', 'capitalize', 'find', 'count', 'isdigit', 'partition', 'rsplit', 'encode'):
            r = getattr(s, name)(*pa)
            if isinstance(r, list):
                return I.newlist(st, [const(x) for x in r])
            return const(r)
    return None


# opaque receivers ------------------------------------------------------

for _n, _o in (('sum', 'sum'), ('min', 'amin'), ('max', 'amax'), ('mean', 'mean'), ('any', 'any'), ('all', 'all'), ('std', 'std'), ('median', 'median'), ('prod', 'prod')):
    def _mk(o):
        def f(I, recv, args, kw, st):
            g = st.heap[recv.oid].content if type(recv) is Ref else recv
            if type(g) is T and g.op == 'gbins':
                return gbins_reduce(I, st, g, o, args, kw)
            return reduce_(I, o, recv, args, kw, st)
        return f
    MM[_n] = _mk(_o)


@meth('replace')
def _m_replace(I, recv, args, kw, st):
    t = I.freeze(recv, st)
    if t.op == 'nowin' and not args and set(kw) == {'tzinfo'} and kw['tzinfo'][1] is NONE and 'utc' in str(t.args[0]).lower():
        return app('datetime.datetime.utcnow')
    if not args and set(kw) == {'hour', 'minute', 'second', 'microsecond'} and all(val(I, v[1], st) is ZERO for v in kw.values()):
        # the start of the day
        return app('datetime.datetime', *[app('getitem', t, S(n)) for n in ('year', 'month', 'day')])
    return NotImplemented


@meth('astype')
def _m_astype(I, recv, args, kw, st):
    d = first(args, kw, 0, 'dtype')
    return newarr(I, st, app('astype', val(I, recv, st), dtype(I, d, st)))


@meth('flatten', 'ravel')
def _m_flat(I, recv, args, kw, st):
    if args or kw:
        return NotImplemented
    return newarr(I, st, app('flat', val(I, recv, st)))


def _flat(t):
    if t.op == 'list' and len(t.args) == 1 and t.args[0].op == 'star':
        s = t.args[0]
        i = freshsym()
        b = open_lam(s.args[1], i).args
        if len(b) == 1 and all(x.op == 'undef' or x.op == 'getitem' and x.args[0].op == 'getitem' and cstr(x.args[0].args[1]) == 'groups' for x in leaves(b[0])):
            return mk('list', *star(s.args[0], i, spread_segs(b[0])))
    if t.op == 'flat':
        return t
    if t.op == 'compress' and any(a.op == 'truth' and a.args[0].op == 'getitem' and cstr(a.args[0].args[1]) == 'mask' for a in tm.atoms_of(t.args[1])):
        # what a mask of every dimension picks has one
        return t
    if t.op == 'getitem' and t.args[1].op == 'np.ones' and t.args[1].args[1] is mk('dt', 'bool'):
        return t
    r = outer(t)
    if r is not None:
        return r
    return mk('flat', t)


def outer(t):
    # x[:, None]*ones((a, b)) has each row filled with one element of x, x[None, :]*ones((a, b)) each column
    if t.op != 'poly':
        return None
    m = t.args
    if len(m) != 1 or m[0][1] != 1 or len(m[0][0]) != 2 or any(k != 1 for f, k in m[0][0]):
        return None
    f, g = m[0][0][0][0], m[0][0][1][0]
    if f.op != 'np.ones':
        f, g = g, f
    if f.op != 'np.ones' or f.args[0].op not in ('tuple', 'list') or len(f.args[0].args) != 2:
        return None
    if g.op == 'newaxis':
        return app('np.tile', g.args[0], f.args[0].args[0])
    if g.op != 'getitem' or g.args[1].op != 'tuple' or len(g.args[1].args) != 2:
        return None
    i, j = g.args[1].args
    if fullslice(i) and j is NONE:
        return app('np.repeat', g.args[0], f.args[0].args[1])
    return None


def fullslice(t):
    return t.op == 'slice' and all(x is NONE for x in t.args)


tm.SMART['flat'] = _flat


@ext('np.ravel')
def _x_ravel(I, st, args, kw):
    return newarr(I, st, app('flat', val(I, args[0], st)))


@meth('reshape')
def _m_reshape(I, recv, args, kw, st):
    if len(args) == 1:
        sh = val(I, args[0], st)
    else:
        sh = mk('tuple', *[val(I, a, st) for a in args])
    if sh.op == 'list':
        sh = mk('tuple', *sh.args)
    if is_int(sh):
        sh = mk('tuple', sh)
    if not kw and (tm.cint(sh) == -1 or sh.op in ('tuple', 'list') and len(sh.args) == 1 and tm.cint(sh.args[0]) == -1):
        return newarr(I, st, app('flat', val(I, recv, st)))
    return newarr(I, st, app('reshape', val(I, recv, st), sh, *kwterms(I, kw, st)))


@meth('squeeze')
def _m_squeeze(I, recv, args, kw, st):
    return newarr(I, st, app('squeeze', val(I, recv, st), *argterms(I, args, kw, st)))


@ext('np.squeeze')
def _x_squeeze(I, st, args, kw):
    return newarr(I, st, app('squeeze', val(I, args[0], st)))


@meth('transpose')
def _m_transpose(I, recv, args, kw, st):
    if args or kw:
        return NotImplemented
    if type(recv) is Ref:
        return I.alloc(st, Obj('view', parent=recv, key='T'))
    return app('transpose', recv)


@meth('tolist', 'to_numpy', 'load', 'compute', 'persist')
def _m_same(I, recv, args, kw, st):
    return recv


@meth('item')
def _m_item(I, recv, args, kw, st):
    return val(I, recv, st)


@meth('assign_attrs')
def _m_assign_attrs(I, recv, args, kw, st):
    if not (type(recv) is Ref and st.heap[recv.oid].kind == 'op'):
        return NotImplemented
    own = I.getattr(recv, 'attrs', st)
    r = copy_value(I, recv, st, False)
    new = I.newdict(st)
    dict_update(I, new, own, st)
    for a in args:
        dict_update(I, new, a, st)
    for k, (p, v) in kw.items():
        if k == '**':
            dict_update(I, new, v, st)
        else:
            I.setitem(new, S(k), v, st)
    o = st.heap[r.oid]
    ch = dict(o.ch)
    ch[('attr', 'attrs')] = new
    st.heap[r.oid] = o.rep(ch=ch)
    return r


@meth('copy')
def _m_copy(I, recv, args, kw, st):
    if type(recv) is Ref:
        o = st.heap[recv.oid]
        if o.kind in ('op',):
            deep = first(args, kw, 0, 'deep')
            if o.cls == 'ds' and (deep is None or val(I, deep, st) is FALSE):
                # a shallow copy of a dataset: own table of variables, shared arrays
                r = copy_value(I, recv, st, False)
                st.heap[r.oid] = st.heap[r.oid].rep(parent=recv)
                return r
            return copy_value(I, recv, st)
        return I.newop(st, I.freeze(recv, st), arr=True)
    return I.newop(st, recv, arr=True)


@meth('view')
def _m_view(I, recv, args, kw, st):
    if args or kw:
        return NotImplemented
    # same values under another shape; the shape of one does not change the other
    return I.newop(st, val(I, recv, st), arr=True)


@meth('fill')
def _m_fill(I, recv, args, kw, st):
    I.setcontent(recv, mk('full', shape(val(I, recv, st)), val(I, args[0], st)), st)
    return NONE


@meth('round')
def _m_round(I, recv, args, kw, st):
    return newarr(I, st, app('np.round', *argterms(I, [recv] + list(args), kw, st)))


@meth('clip')
def _m_clip(I, recv, args, kw, st):
    return clip(I, val(I, recv, st), first(args, kw, 0, 'min'), first(args, kw, 1, 'max'), st)


@meth('isel')
def _m_isel(I, recv, args, kw, st):
    d = {}
    kw = dict(kw)
    kw.pop('drop', None)
    if args or 'indexers' in kw:
        x = args[0] if args else kw.pop('indexers')[1]
        if type(x) is Ref and st.heap[x.oid].kind == 'dict' and st.heap[x.oid].base is None:
            for k, (p, v) in st.heap[x.oid].items.items():
                if p is not TRUE:
                    raise ip.Unsupported('conditional indexer')
                d[k] = val(I, v, st)
        else:
            I.expand_kw(kw, x, st)
    for k, (p, v) in kw.items():
        if k == '**' or p is not TRUE:
            return app('m.isel', I.freeze(recv, st), *argterms(I, args, kw, st))
        d[S(k)] = val(I, v, st)
    t = I.freeze(recv, st)
    isds = type(recv) is Ref and st.heap[recv.oid].kind == 'op' and st.heap[recv.oid].cls == 'ds'
    return isel(I, t, d, st, isds)


def isel(I, t, d, st, isds):
    if t.op == 'isel' and not any(k in dict(t.args[1].args) for k in d):
        dd = dict(t.args[1].args)
        dd.update(d)
        t = t.args[0]
        d = dd
    dt = mk('dict', *sorted(d.items(), key=lambda kv: kv[0].id))
    r = app('isel', t, dt) if d else t
    if isds:
        return mkds(I, st, r)
    return I.newop(st, r)


@meth('get')
def _m_get(I, recv, args, kw, st):
    d = args[1] if len(args) > 1 else NONE
    t = I.freeze(recv, st)
    k = val(I, args[0], st)
    c = I.simp(has_key(t, k), st)
    return I.merge_val(c, I.getitem(recv, k, st), d)


@meth('keys')
def _m_keys(I, recv, args, kw, st):
    return app('keys', I.freeze(recv, st))


@meth('items')
def _m_items(I, recv, args, kw, st):
    return map_dict(I.freeze(recv, st), lambda k, v: mk('tuple', k, v))


@meth('update')
def _m_update(I, recv, args, kw, st):
    if type(recv) is Ref and st.heap[recv.oid].kind == 'op' and args and type(args[0]) is Ref and st.heap[args[0].oid].kind == 'dict' and st.heap[args[0].oid].base is None:
        for k, (p, v) in st.heap[args[0].oid].items.items():
            if p is not TRUE:
                v = I.merge_val(p, v, I.getitem(recv, k, st))
            I.setitem(recv, k, v, st)
        return recv
    if type(recv) is Ref and st.heap[recv.oid].kind == 'op':
        o = st.heap[recv.oid]
        t = I.freeze(recv, st)
        if len(args) == 1 and not kw and I.freeze(args[0], st) is t:
            return recv
        if t.op == 'attr' and t.args[1] in ('attrs', 'encoding') and len(args) == 1 and not kw:
            st.heap[recv.oid] = o.rep(content=mk('merged', t, I.freeze(args[0], st)), ch={})
            return recv
        st.heap[recv.oid] = o.rep(content=app('updated', t, *argterms(I, args, kw, st)), ch={})
        return recv
    return NotImplemented


@meth('extend')
def _m_extend(I, recv, args, kw, st):
    if type(recv) is Ref and st.heap[recv.oid].kind == 'op':
        o = st.heap[recv.oid]
        t = o.content
        if t.op == 'getitem':
            raise ip.Unsupported('changing a list kept in %s' % t.args[0].op)
        segs = t.args if t.op == 'list' else (mk('spread', t),)
        st.heap[recv.oid] = o.rep(content=mk('list', *(segs + tuple(I.fsegs(I.value_segs(args[0], st), st)))))
        return NONE
    raise ip.Unsupported('adding to a list without identity')


@meth('append')
def _m_append(I, recv, args, kw, st):
    if type(recv) is Ref and st.heap[recv.oid].kind == 'op':
        o = st.heap[recv.oid]
        t = o.content
        if t.op == 'getitem':
            raise ip.Unsupported('changing a list kept in %s' % t.args[0].op)
        segs = t.args if t.op == 'list' else (mk('spread', t),)
        st.heap[recv.oid] = o.rep(content=mk('list', *(segs + (I.freeze(args[0], st),))))
        return NONE
    raise ip.Unsupported('adding to a list without identity')


@meth('pop')
def _m_pop(I, recv, args, kw, st):
    if type(recv) is Ref and st.heap[recv.oid].kind == 'op':
        o = st.heap[recv.oid]
        k = val(I, args[0], st)
        t = I.freeze(recv, st)
        v = I.getitem(recv, k, st)
        if len(args) > 1:
            v = I.merge_val(has_key(t, k), v, args[1])
        ch = dict(st.heap[recv.oid].ch)
        ch.pop(('item', k), None)
        st.heap[recv.oid] = o.rep(content=dpop(o.content, [k]), ch=ch)
        return v
    return NotImplemented


@meth('add_argument')
def _m_add_argument(I, recv, args, kw, st):
    """a command line option: its flags, where and how its value is kept"""
    flags = [cstr(val(I, a, st)) for a in args]
    if any(p is not TRUE for p, v in kw.values()):
        raise ip.Unsupported('add_argument')
    kw = {k: v for k, (p, v) in kw.items()}
    if None in flags:
        raise ip.Unsupported('add_argument')
    dest = kw.get('dest')
    if dest is None:
        long_ = [f for f in flags if f.startswith('--')]
        dest = S((long_ or flags)[0].lstrip('-').replace('-', '_'))
    flags = sorted(f for f in flags if f.startswith('-'))
    action = val(I, kw['action'], st) if 'action' in kw else S('store')
    default = {'store_true': tm.FALSE, 'store_false': TRUE}.get(cstr(action), NONE)
    row = [mk('tuple', *[S(f) for f in flags]), val(I, dest, st), action]
    row.append(val(I, kw['default'], st) if 'default' in kw else default)
    for k in ('type', 'nargs', 'choices', 'const'):
        row.append(val(I, kw[k], st) if k in kw else NONE)
    row.append(val(I, kw['required'], st) if 'required' in kw else tm.FALSE)
    I.log_event(('eff', S('option')), mk('tuple', *row), st)
    return NONE


@meth('set_defaults', 'add_subparsers', 'add_mutually_exclusive_group')
def _m_parser_other(I, recv, args, kw, st):
    raise ip.Unsupported('parser set up')


@meth('total_seconds')
def _m_ts(I, recv, args, kw, st):
    return seconds_of(val(I, recv, st))


@meth('where')
def _m_where(I, recv, args, kw, st):
    if kw or len(args) not in (1, 2):
        return NotImplemented
    c = tm.truth(val(I, args[0], st))
    return ite(c, val(I, recv, st), val(I, args[1], st) if len(args) == 2 else NAN)


@meth('fillna')
def _m_fillna(I, recv, args, kw, st):
    v = first(args, kw, 0, 'value')
    if v is None or len(args) + len(kw) > 1:
        return NotImplemented
    t, v = val(I, recv, st), val(I, v, st)
    if tm.cnum(v) is not None:
        return NotImplemented
    return ite(app('isnan', t), v, t)


@meth('isnull')
def _m_isnull(I, recv, args, kw, st):
    return app('isnan', val(I, recv, st))


@meth('assign', 'assign_coords')
def _m_assign(I, recv, args, kw, st):
    r = copy_value(I, recv, st) if type(recv) is Ref else I.newop(st, recv)
    kw = dict(kw)
    if args:
        I.expand_kw(kw, args[0], st)
    for k, (p, v) in kw.items():
        if k == '**' or p is not TRUE:
            return NotImplemented
        I.setitem(r, S(k), v, st)
    return r


@meth('set_coords')
def _m_setcoords(I, recv, args, kw, st):
    t = I.freeze(recv, st)
    a = first(args, kw, 0, 'names')
    names = [val(I, a, st)] if is_str(val(I, a, st)) else list(I.fsegs(I.value_segs(a, st), st))
    if type(recv) is Ref and st.heap[recv.oid].kind == 'op' and st.heap[recv.oid].cls == 'ds':
        r = copy_value(I, recv, st, False)
        o = st.heap[r.oid]
        ch = dict(o.ch)
        old = ch.get(('attr', 'coordnames'))
        ch[('attr', 'coordnames')] = mkset(names + (list(old.args) if old is not None and old.op == 'set' else []))
        st.heap[r.oid] = o.rep(ch=ch)
        return r
    return app('m.set_coords', t, mkset(names))


def dsmerge(parts):
    out = []
    for p in parts:
        out.extend(p.args[0].args if p.op == 'dsmerge' else [p])
    return mk('dsmerge', mkset(out))


@meth('merge')
def _m_merge(I, recv, args, kw, st):
    # tables of different variables: in which order they are joined does not matter
    t = val(I, recv, st)
    if len(args) == 1 and not kw and t.op in ('m.to_xarray', 'dsmerge'):
        return dsmerge([t, val(I, args[0], st)])
    return NotImplemented


@ext('xr.merge')
def _x_merge(I, st, args, kw):
    segs = I.value_segs(args[0], st) if args else ()
    ts = [val(I, x, st) for x in segs] if ip.plainsegs(segs) else []
    if len(args) == 1 and not kw and ts and all(t.op in ('m.to_xarray', 'dsmerge') for t in ts):
        return dsmerge(ts)
    return app('xr.merge', *argterms(I, args, kw, st))


@meth('set_index')
def _m_setindex(I, recv, args, kw, st):
    # an index of a dimension made from the coordinate of that name changes no value
    if type(recv) is Ref and st.heap[recv.oid].kind == 'op' and st.heap[recv.oid].cls == 'ds':
        pairs = []
        if len(args) == 1 and not kw:
            d = val(I, args[0], st)
            if d.op == 'dict':
                pairs = [(k, v) for k, v in d.args]
        elif kw and not args and '**' not in kw:
            pairs = [(S(k), val(I, v, st)) for k, (p, v) in kw.items()]
        if pairs and all(k is v for k, v in pairs):
            return copy_value(I, recv, st, False)
    return NotImplemented


def ensure_dir(I, st, d, lax):
    """a directory is made unless it is there"""
    if not lax:
        I.log_event(('eff', S('makedirs')), mk('directory', d), st)
        return NONE
    there = I.truth(app('os.path.exists', d), st)
    I.guarded(IteV(there, TRUE, FALSE), st, lambda b, z: None if b is TRUE else I.log_event(('eff', S('makedirs')), mk('directory', d), z))
    return NONE


@ext('os.makedirs')
def _x_makedirs(I, st, args, kw):
    ok = val(I, first(args, kw, 2, 'exist_ok', FALSE), st)
    return ensure_dir(I, st, val(I, first(args, kw, 0, 'name'), st), ok is TRUE)


@meth('mkdir')
def _m_mkdir(I, recv, args, kw, st):
    t = val(I, recv, st)
    if t.op != 'pathlib.Path' or len(t.args) != 1 or 'parents' not in kw or val(I, kw['parents'][1], st) is not TRUE:
        return NotImplemented
    return ensure_dir(I, st, t.args[0], 'exist_ok' in kw and val(I, kw['exist_ok'][1], st) is TRUE)


@ext('xr.open_mfdataset')
def _x_open_mfdataset(I, st, args, kw):
    return mkds(I, st, app('xr.open_mfdataset', *argterms(I, args, kw, st)))


@meth('groupby_bins')
def _m_gbins(I, recv, args, kw, st):
    a = [first(args, kw, 0, 'group'), first(args, kw, 1, 'bins'), first(args, kw, 2, 'right', TRUE)]
    if a[0] is None or a[1] is None or len(args) > 3 or set(kw) - {'group', 'bins', 'right'}:
        return NotImplemented
    return mk('gbins', I.freeze(recv, st), *[val(I, x, st) for x in a])


def _pick(how):
    def f(I, recv, args, kw, st):
        g = st.heap[recv.oid].content if type(recv) is Ref else recv
        if type(g) is T and g.op == 'gbins' and not args:
            return gbins_reduce(I, st, g, how, args, kw)
        return NotImplemented
    return f


for _n in ('first', 'last', 'count', 'var'):
    if _n not in MM:
        MM[_n] = _pick(_n)


def gbins_reduce(I, st, t, how, args, kw):
    data, name, bins, right = t.args
    dim = first(args, kw, 0, 'dim', NONE)
    dim = val(I, dim, st)
    if dim is NONE:
        dim = name
    skip = val(I, first(args[9:], kw, 0, 'skipna', NONE), st)
    rest = [mk('kw', S(k), val(I, v, st)) for k, (p, v) in sorted(kw.items()) if k not in ('dim', 'skipna', 'keep_attrs')]
    if skip is not TRUE and skip is not NONE:
        rest.append(mk('kw', S('skipna'), skip))
    keep = 'keep_attrs' not in kw or val(I, kw['keep_attrs'][1], st) is not FALSE
    root = data
    while root.op in ('upd', 'cols', 'origin'):
        root = root.args[0]
    key = name
    if data.op != 'upd':
        # nothing is known of the variables one by one
        return mkds(I, st, mk('binned', S(how), data, key, bins, right, dim, *rest))
    r = mkds(I, st, mk('binned', S(how), root, key, bins, right, dim, *rest))
    ch = {}
    for k, v in data.args[1]:
        if k[0] == 'item':
            at = I.box(I.getattr(v, 'attrs', st), st) if keep else I.newdict(st)
            ch[k] = I.newop(st, mk('binned', S(how), strip(v), key, bins, right, dim, *rest), arr=True, ch={('attr', 'attrs'): at})
    if cstr(name) is not None:
        ch[('item', S(cstr(name) + '_bins'))] = newarr(I, st, mk('binlabels', key, bins, right))
    st.heap[r.oid] = st.heap[r.oid].rep(ch=ch)
    return r


# polygon clipper: the outcome depends on the set of paths added since the last Clear

def _pcstate(*items):
    return mk('pcstate', *sorted(items, key=lambda z: z.id))


tm.SMART['pcstate'] = _pcstate
tm.NOLIFT.add('pcstate')


@ext('pyclipper.Pyclipper')
def _x_pc(I, st, args, kw):
    return I.newop(st, mk('pcstate'))


@meth('AddPath')
def _m_addpath(I, recv, args, kw, st):
    if type(recv) is not Ref:
        return NotImplemented
    o = st.heap[recv.oid]
    names = ['path', 'poly_type', 'closed']
    kw = dict(kw)
    for i, a in enumerate(args):
        kw[names[i]] = (TRUE, a)
    kw.setdefault('closed', (TRUE, TRUE))
    t = mk('path', *[val(I, kw[n][1], st) if n in kw else NONE for n in names])
    c = o.content
    items = c.args if c.op == 'pcstate' else (mk('spread', c),)
    st.heap[recv.oid] = o.rep(content=_pcstate(*(items + (t,))), ch={})
    return NONE


@meth('AddPaths')
def _m_addpaths(I, recv, args, kw, st):
    if type(recv) is not Ref:
        return NotImplemented
    o = st.heap[recv.oid]
    t = mk('paths', *argterms(I, args, kw, st))
    c = o.content
    items = c.args if c.op == 'pcstate' else (mk('spread', c),)
    st.heap[recv.oid] = o.rep(content=_pcstate(*(items + (t,))), ch={})
    return NONE


@meth('Clear')
def _m_clear(I, recv, args, kw, st):
    if type(recv) is not Ref:
        return NotImplemented
    o = st.heap[recv.oid]
    st.heap[recv.oid] = o.rep(content=mk('pcstate'), ch={})
    return NONE


@meth('Execute')
def _m_execute(I, recv, args, kw, st):
    o = st.heap[recv.oid] if type(recv) is Ref else None
    names = ['clip_type', 'subj_fill_type', 'clip_fill_type']
    kw = dict(kw)
    for i, a in enumerate(args):
        kw[names[i]] = (TRUE, a)
    return app('pc.Execute', o.content if o else recv, *[val(I, kw[n][1], st) if n in kw else NONE for n in names])



def mkresource(name):
    def f(I, st, args, kw):
        p = val(I, args[0], st)
        n = cstr(p)
        # data files lie beside the module: only its package matters
        if n in I.modules and not I.modules[n].path.endswith('__init__.py'):
            p = S(n.rpartition('.')[0])
        return app(name, p, *[val(I, a, st) for a in args[1:]])
    return f


for _n in ('resource_filename', 'resource_stream', 'resource_string'):
    EXT['pkg_resources.' + _n] = mkresource('pkg_resources.' + _n)
