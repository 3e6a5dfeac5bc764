"""Abstract values, heap objects and abstract states."""
from .terms import *
from . import terms as tm


class Ref(object):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Ref%d' % self.oid

    def __eq__(self, o):
        return type(o) is Ref and o.oid == self.oid

    def __hash__(self):
        return hash(('Ref', self.oid))


class Tup(object):
    """tuple whose elements may be references"""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return 'Tup%r' % (self.segs,)


class FuncVal(object):
    def __init__(self, node, mod, fid, cls=None, name=None, qual=None, defaults=None, kwdefaults=None):
        self.node = node
        self.mod = mod
        self.fid = fid
        self.cls = cls
        self.name = name
        self.qual = qual
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.kind = None

    def __repr__(self):
        return 'Func<%s>' % self.qual


class ClassVal(object):
    def __init__(self, name, mod, bases, ns, qual):
        self.name = name
        self.mod = mod
        self.bases = bases
        self.ns = ns
        self.qual = qual
        self.unknown_base = any(not isinstance(b, ClassVal) for b in bases)

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def lookup(self, name, after=None):
        seen = after is None
        for c in self.mro():
            if seen and name in c.ns:
                return c.ns[name], c
            if c is after:
                seen = True
        return None, None

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if not isinstance(b, ClassVal):
                    out.append(b)
        return out

    def __repr__(self):
        return 'Class<%s>' % self.qual


class ModuleVal(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Mod<%s>' % self.name


class Ext(object):
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Ext<%s>' % self.path

    def __eq__(self, o):
        return type(o) is Ext and o.path == self.path

    def __hash__(self):
        return hash(('Ext', self.path))


class Bound(object):
    def __init__(self, func, selfv):
        self.func = func
        self.selfv = selfv


class Meth(object):
    """unresolved method of an opaque receiver"""

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


class Partial(object):
    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs


class Builtin(object):
    def __init__(self, name, fn=None):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return 'Builtin<%s>' % self.name


class Super(object):
    def __init__(self, cls, selfv):
        self.cls = cls
        self.selfv = selfv


class IteV(object):
    """conditional value whose branches are not both plain terms"""

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return 'IteV(%r,%r,%r)' % (self.c, self.a, self.b)


class SliceV(object):
    pass


UNDEF = mk('undef')


class Obj(object):
    """heap object (never mutated in place; replaced)"""
    __slots__ = ('kind', 'content', 'segs', 'items', 'ch', 'cls', 'parent', 'key', 'eff', 'arr', 'base', 'born', 'loose')

    def __init__(self, kind, **kw):
        self.kind = kind          # list dict inst op view set
        self.content = kw.get('content')
        self.segs = kw.get('segs', ())
        self.items = kw.get('items')      # dict: keyT -> (presT, value)
        self.ch = kw.get('ch')            # op/inst children
        self.cls = kw.get('cls')
        self.parent = kw.get('parent')
        self.key = kw.get('key')
        self.eff = kw.get('eff', False)
        self.arr = kw.get('arr', False)
        self.base = kw.get('base')        # dict: opaque base mapping
        self.born = kw.get('born', 0)
        self.loose = kw.get('loose', False)   # shared with a container it was read from

    def rep(self, **kw):
        o = Obj(self.kind)
        for s in Obj.__slots__:
            setattr(o, s, kw[s] if s in kw else getattr(self, s))
        return o


class State(object):
    __slots__ = ('heap', 'envs', 'assume')

    def __init__(self, heap=None, envs=None, assume=None):
        self.heap = heap if heap is not None else {}
        self.envs = envs if envs is not None else {}
        self.assume = assume or {}

    def clone(self):
        return State(dict(self.heap), {k: dict(v) for k, v in self.envs.items()}, dict(self.assume))
