"""Abstract values: cells (storage), objects and the native models of library types."""
from .terms import add, sub, is_sym


class Uninit:
    def __repr__(self):
        return "UNINIT"


UNINIT = Uninit()


class Cell:
    __slots__ = ("v", "name")

    def __init__(self, v=UNINIT, name=None):
        self.v = v
        self.name = name

    def __repr__(self):
        return "&%s" % (self.name or repr(self.v))


class StrCell(Cell):
    """a character of a string: what is stored in it is stored in the string"""
    __slots__ = ("run", "o", "i")

    def __init__(self, run, o, i):
        self.run, self.o, self.i = run, o, i
        self.name = None

    @property
    def v(self):
        return self.run.char_at(self.o, self.i)

    @v.setter
    def v(self, x):
        l = self.o.items()
        if l is None or not 0 <= self.i < len(l):
            raise TypeError("store to a character outside of a string")
        l = list(l)
        l[self.i] = x
        self.o.base, self.o.off, self.o.length = CharSeq(l), 0, len(l)
        c = self.o.concrete()
        if c is not None:
            self.o.base = c


class Null:
    def __repr__(self):
        return "nullptr"


NULL = Null()


class Ptr:
    """pointer to one cell"""
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell

    def __repr__(self):
        return "Ptr(%r)" % (self.cell.name or "")


class ElemPtr:
    """pointer or iterator into a sequence"""
    __slots__ = ("vec", "idx")

    def __init__(self, vec, idx):
        self.vec, self.idx = vec, idx

    def __repr__(self):
        return "It(%s,%r)" % (getattr(self.vec, "path", None) or "vec", self.idx)


class SymPtr:
    """pointer whose target (and nullness) is an input"""
    __slots__ = ("name", "to")

    def __init__(self, name, to):
        self.name, self.to = name, to

    def __repr__(self):
        return "*%s" % self.name


class FnRef:
    __slots__ = ("key", "q", "node")

    def __init__(self, key, q, node=None):
        self.key, self.q, self.node = key, q, node

    def __repr__(self):
        return "fn:%s" % self.q


class MemPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Havoc:
    """a value about which nothing is known (not even its shape)"""
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "Havoc(%s)" % self.why


class Obj:
    """object of a class of the repository; fields are materialised on demand when `path` is set"""

    def __init__(self, rec, path=None):
        self.rec = rec
        self.fields = {}
        self.path = path

    def copy(self, run):
        o = Obj(self.rec, self.path)
        for k, c in self.fields.items():
            o.fields[k] = run.copy_field(self, k, c)
        return o

    def assign(self, o):
        self.rec = o.rec if self.rec is None else self.rec
        self.path = o.path
        for k in list(self.fields):
            if k not in o.fields:
                del self.fields[k]
        for k, c in o.fields.items():
            if k in self.fields:
                self.fields[k].v = c.v
            else:
                self.fields[k] = c

    def __repr__(self):
        return "%s{%s}" % ((self.rec or "?").split("::")[-1][:40], ", ".join("%s=%r" % (k, c.v) for k, c in self.fields.items()))


class Closure(Obj):
    def __init__(self, node):
        Obj.__init__(self, "lambda#%s" % node["lid"])
        self.node = node
        self.caps = {}
        self.this = None

    def copy(self, run):
        c = Closure(self.node)
        c.caps = dict(self.caps)
        c.this = self.this
        return c


class VariantObj(Obj):
    def __init__(self, rec, alts, idx, path=None):
        Obj.__init__(self, rec, path)
        self.alts = alts
        self.idx = idx
        self.cells = {}

    def copy(self, run):
        o = VariantObj(self.rec, self.alts, self.idx, self.path)
        for k, c in self.cells.items():
            o.cells[k] = Cell(run.copy_val(c.v), c.name)
        for k, c in self.fields.items():
            o.fields[k] = run.copy_field(self, k, c)
        return o

    def assign(self, o):
        self.idx, self.path = o.idx, o.path
        old = self.cells
        self.cells = {}
        for k, c in o.cells.items():
            if k in old:
                old[k].v = c.v
                self.cells[k] = old[k]
            else:
                self.cells[k] = c

    def __repr__(self):
        return "V<%r>%r" % (self.idx, [c.v for c in self.cells.values()])


class OptObj(Obj):
    def __init__(self, rec, vt, has, val=None, path=None):
        Obj.__init__(self, rec, path)
        self.vt, self.has, self.val = vt, has, val

    def copy(self, run):
        return OptObj(self.rec, self.vt, self.has, Cell(run.copy_val(self.val.v)) if self.val else None, self.path)

    def assign(self, o):
        self.has, self.path = o.has, o.path
        if o.val is None:
            self.val = None
        elif self.val is None:
            self.val = o.val
        else:
            self.val.v = o.val.v

    def __repr__(self):
        return "Opt(%r,%r)" % (self.has, self.val.v if self.val else None)


class ResultObj(Obj):
    def __init__(self, rec, vt, et, has, val=None, err=None, path=None):
        Obj.__init__(self, rec, path)
        self.vt, self.et, self.has, self.val, self.err = vt, et, has, val, err

    def copy(self, run):
        return ResultObj(self.rec, self.vt, self.et, self.has, Cell(run.copy_val(self.val.v)) if self.val else None,
                         Cell(run.copy_val(self.err.v)) if self.err else None, self.path)

    def assign(self, o):
        self.has, self.val, self.err, self.path = o.has, o.val, o.err, o.path

    def __repr__(self):
        return "Result(%r,%r,%r)" % (self.has, self.val.v if self.val else None, self.err.v if self.err else None)


class VecObj(Obj):
    """vector, array, string buffer: elements keyed by index form; symbolic prefix when `path` is set"""

    def __init__(self, rec, et, length, path=None, kind="vector"):
        Obj.__init__(self, rec, path)
        self.et, self.length, self.kind = et, length, kind
        self.elems = {}

    def copy(self, run):
        o = VecObj(self.rec, self.et, self.length, self.path, self.kind)
        for k, c in self.elems.items():
            o.elems[k] = Cell(run.copy_val(c.v), c.name)
        return o

    def assign(self, o):
        self.et, self.length, self.path, self.elems = o.et, o.length, o.path, dict(o.elems)

    def __repr__(self):
        return "Vec(%s len=%r %s)" % (self.path, self.length, {k: c.v for k, c in self.elems.items()})


class SpanObj(Obj):
    def __init__(self, rec, vec, off, length):
        Obj.__init__(self, rec, None)
        self.vec, self.off, self.length = vec, off, length

    def copy(self, run):
        return SpanObj(self.rec, self.vec, self.off, self.length)

    def assign(self, o):
        self.vec, self.off, self.length = o.vec, o.off, o.length

    def __repr__(self):
        return "Span(%r,%r,%r)" % (self.vec, self.off, self.length)


class SymStr:
    """identity of an unknown character sequence"""
    __slots__ = ("name", "length")

    def __init__(self, name, length):
        self.name, self.length = name, length

    def __repr__(self):
        return "str:" + self.name


class CharSeq(SymStr):
    """a sequence of known length whose characters are known (0..255) or unknown (terms of 8 bits)"""
    __slots__ = ("chars",)
    count = 0

    def __init__(self, chars):
        CharSeq.count += 1
        SymStr.__init__(self, "seq%d" % CharSeq.count, len(chars))
        self.chars = list(chars)

    def __repr__(self):
        return "chars:" + "".join(chr(c & 255) if isinstance(c, int) else "{%r}" % (c,) for c in self.chars)


class StrObj(Obj):
    """string_view / string / char pointer: base is a python str or SymStr"""

    def __init__(self, rec, base, off=0, length=None):
        Obj.__init__(self, rec, None)
        if isinstance(base, str) and isinstance(off, int) and (length is None or isinstance(length, int)):
            base = base[off:] if length is None else base[off:off + length]
            off, length = 0, len(base)
        self.base, self.off = base, off
        self.length = length if length is not None else (len(base) if isinstance(base, str) else sub(base.length, off))

    def copy(self, run):
        return StrObj(self.rec, self.base, self.off, self.length)

    def assign(self, o):
        if not isinstance(o, StrObj):
            raise TypeError
        self.base, self.off, self.length = o.base, o.off, o.length

    def concrete(self):
        if isinstance(self.base, CharSeq):
            if isinstance(self.off, int) and isinstance(self.length, int):
                l = self.base.chars[self.off:self.off + self.length]
                if all(isinstance(c, int) for c in l):
                    return "".join(chr(c & 255) for c in l)
            return None
        return self.base if isinstance(self.base, str) and self.off == 0 and self.length == len(self.base) else None

    def items(self):
        """the characters when their number is known"""
        if isinstance(self.off, int) and isinstance(self.length, int):
            if isinstance(self.base, CharSeq):
                return self.base.chars[self.off:self.off + self.length]
            if isinstance(self.base, str):
                return [ord(c) for c in self.base[self.off:self.off + self.length]]
        return None

    def key(self):
        if isinstance(self.base, CharSeq) and self.items() is not None:
            return ("seq", tuple(repr(c) for c in self.items()))
        b = self.base if isinstance(self.base, str) else self.base.name
        return (isinstance(self.base, str), b, self.off, self.length)

    def __repr__(self):
        c = self.concrete()
        return repr(c) if c is not None else "SV(%r,%r,%r)" % (self.base, self.off, self.length)


class MapObj(Obj):
    def __init__(self, rec, path=None):
        Obj.__init__(self, rec, path)
        self.items = []      # (key, Cell)
        self.absent = []     # keys known absent from the symbolic part

    def copy(self, run):
        o = MapObj(self.rec, self.path)
        o.items = [(k, Cell(run.copy_val(c.v))) for k, c in self.items]
        o.absent = list(self.absent)
        return o

    def assign(self, o):
        self.path, self.items, self.absent = o.path, list(o.items), list(o.absent)

    def __repr__(self):
        return "Map(%s,%r)" % (self.path, self.items)


class MapIt:
    """iterator: entry cell holding a pair object, or end"""
    __slots__ = ("m", "entry", "pos")

    def __init__(self, m, entry):
        self.m, self.entry = m, entry
        self.pos = None


class ViewObj(Obj):
    """lazy range adaptor: kind in transform, reverse"""

    def __init__(self, rec, kind, base, fn=None):
        Obj.__init__(self, rec, None)
        self.kind, self.base, self.fn = kind, base, fn

    @property
    def length(self):
        return self.base.length

    def copy(self, run):
        return ViewObj(self.rec, self.kind, self.base, self.fn)


class Ext(Obj):
    """object of an unmodelled external class; identity and name only"""

    def copy(self, run):
        o = Ext(self.rec, self.path)
        o.fields = dict(self.fields)
        return o

    def __repr__(self):
        return "Ext(%s,%s)" % (self.rec, self.path)
