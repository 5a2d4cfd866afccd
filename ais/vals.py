"""Abstract values and program states of the interpreter."""
from .terms import *


class V:
    __slots__ = ()


class Ref(V):
    """an array; heap[id] = Cell"""
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return "Ref(%s)" % (self.id,)


class Cell:
    """contents of an array; bases: ((condition, cell id, kind, index), ...) the arrays it is (conditionally) a view of"""
    __slots__ = ("t", "bases")

    def __init__(self, t, bases=()):
        self.t, self.bases = t, bases

    def __repr__(self):
        return "Cell(%s%s)" % (show(self.t), " view of %s" % (self.bases,) if self.bases else "")


class Obj(V):
    """an object allocated in the analysed run; heap[id] = {field: value}"""
    __slots__ = ("id", "cls", "adt")

    def __init__(self, i, cls, adt=None):
        self.id, self.cls, self.adt = i, cls, adt

    def __repr__(self):
        return "Obj(%s:%s)" % (getattr(self.cls, "name", self.cls), self.id)


class SObj(V):
    """a symbolic object, identified by a term; fields live in per class maps heap[("F", class, field)]"""
    __slots__ = ("cls", "id")

    def __init__(self, cls, i):
        self.cls, self.id = cls, i

    def __repr__(self):
        return "SObj(%s:%s)" % (self.cls.name, show(self.id))


class DElem(V):
    """a distribution stored in a symbolic list"""
    __slots__ = ("lst", "idx")

    def __init__(self, lst, idx):
        self.lst, self.idx = lst, idx


class DVal(V):
    """an immutable distribution value"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class Lst(V):
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return "Lst(%s)" % (self.id,)


class LRec:
    """list contents: a symbolic prefix term (or None) followed by concrete items; kind describes the elements"""
    __slots__ = ("base", "items", "kind")

    def __init__(self, base, items, kind=None):
        self.base, self.items, self.kind = base, tuple(items), kind


class Dct(V):
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i


class DRec:
    """dictionary; open: name of the unknown remainder or None"""
    __slots__ = ("items", "open")

    def __init__(self, items, open=None):
        self.items, self.open = items, open


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%s" % (self.items,)


class Seq(V):
    """lazy iterable: zip / enumerate / range / reversed / product of other iterables"""
    __slots__ = ("kind", "parts", "extra")

    def __init__(self, kind, parts, extra=None):
        self.kind, self.parts, self.extra = kind, parts, extra


class Fn(V):
    __slots__ = ("info", "self_", "env", "frame")

    def __init__(self, info, self_=None, env=None, frame=None):
        self.info, self.self_, self.env, self.frame = info, self_, env, frame

    def __repr__(self):
        return "Fn(%s)" % self.info.qual


class Ext(V):
    """something of an external library, by dotted name; recv: the value a method is bound to"""
    __slots__ = ("name", "recv")

    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv

    def __repr__(self):
        return "Ext(%s)" % self.name


class XObj(V):
    """an object of an external library: an uninterpreted term"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Cls(V):
    __slots__ = ("cls",)

    def __init__(self, c):
        self.cls = c

    def __repr__(self):
        return "Cls(%s)" % self.cls.name


class Mod(V):
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m


class Super(V):
    __slots__ = ("cls", "obj")

    def __init__(self, c, o):
        self.cls, self.obj = c, o


class Uni(V):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Uni(%s ? %r : %r)" % (self.c, self.a, self.b)


class Slc(V):
    __slots__ = ("lo", "hi", "st")

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class Meth(V):
    """method of an array / list / dict / string value"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class State:
    __slots__ = ("env", "heap", "pc", "facts")

    def __init__(self, env=None, heap=None, pc=(), facts=frozenset()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.facts = facts

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc, self.facts)

    def set(self, o):
        self.env, self.heap, self.pc, self.facts = o.env, o.heap, o.pc, o.facts

    def assume(self, c, pc=True):
        if c is TRUE:
            return self
        if pc:
            self.pc = self.pc + (c,)
        self.facts = self.facts | fact_set(c)
        return self


def fact_set(c):
    out = {c}
    if c.op == "and":
        for a in c.args:
            out |= fact_set(a)
    if c.op == "not" and c.args[0].op == "or":
        for a in c.args[0].args:
            out |= fact_set(bnot(a))
    if c.op == "ite":
        if c.args[2] is FALSE:
            out |= fact_set(c.args[0]) | fact_set(c.args[1])
        if c.args[1] is FALSE:
            out |= fact_set(bnot(c.args[0])) | fact_set(c.args[2])
    return frozenset(out)


class Dead(Exception):
    """the current path does not continue"""
