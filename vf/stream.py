"""Binary file streams as sequences of typed records.

A stream is a sequence of records (type, byte size, value); writing the bytes
of an object appends a record, reading the bytes of an object of the same type
gives the record's value back.  Reading across record boundaries, or with
another type or size, gives an arbitrary value.  Assumed of the library: writes
to an open stream succeed, a read asking for more bytes than are left fails and
leaves the object arbitrary.
"""
import z3
from .ast import Unsupported
from .values import *
from .types import strip, base_name, int_info

STREAMS = ("basic_fstream", "basic_ifstream", "basic_ofstream", "fstream", "ifstream", "ofstream")


def stream_shape(types, leaf, hint):
    if types.stream_types == "files":
        return Struct("file", {"name": leaf(Str, hint + ".name", None), "mode": leaf(Int, hint + ".mode", (0, 63)),
                               "open": leaf(Bool, hint + ".open", None)})
    f = {"open": leaf(Bool, hint + ".open", None), "good": leaf(Bool, hint + ".good", None),
         "eof": leaf(Bool, hint + ".eof", None), "pos": leaf(Int, hint + ".pos", (0, 2 ** 62)),
         "left": leaf(Int, hint + ".left", (0, 2 ** 62)), "rec": leaf(Int, hint + ".rec", (0, 2 ** 62)),
         "got": leaf(Int, hint + ".got", (0, 2 ** 62))}
    arr = lambda s, h, r: leaf(z3.ArraySort(Int, s), h, r)
    f["kind"] = leaf(z3.ArraySort(Int, Int), hint + ".kind", None)
    f["size"] = leaf(z3.ArraySort(Int, Int), hint + ".size", None)
    for t in types.stream_types:
        f["data_" + base_name(t)] = types.shape(t, arr, hint + ".data_" + base_name(t))
    return Struct("stream", f)


IN, OUT, APP = 8, 16, 1
FLAGS = {"in": IN, "out": OUT, "app": APP, "binary": 0, "trunc": 0, "ate": 0}


def open_mode(n):
    """The std::ios flags in an expression joining them by |."""
    if n.kind in ("ImplicitCastExpr", "ParenExpr"):
        return open_mode(n.inner[0])
    if n.kind in ("DeclRefExpr", "MemberExpr"):
        name = n.name or n.get("referencedDecl", {}).get("name")
        if name in FLAGS:
            return FLAGS[name]
    if n.kind in ("BinaryOperator", "CXXOperatorCallExpr"):
        return open_mode(n.inner[-2]) | open_mode(n.inner[-1])
    raise Unsupported("mode of a file")


class StreamMixin:
    """With types.stream_types == "files" a stream is a name, a mode and whether
    it is open; the property's contracts say what reading and writing whole
    objects does to the files (on_open(name, mode) -> whether it opens)."""
    on_open = None

    def file_construct(self, real):
        if not real:
            return Struct("file", {"name": str_term(""), "mode": z3.IntVal(0), "open": z3.BoolVal(False)})
        name = norm(self.ev(real[0]))
        if not (z3.is_expr(name) and name.sort() == Str):
            raise Unsupported("file name")
        mode = z3.IntVal(open_mode(real[1]) if len(real) > 1 else IN | OUT)
        self.assumed.add("std::fstream (files keep what was written under their name)")
        return Struct("file", {"name": name, "mode": mode, "open": self.on_open(name, mode.as_long())})

    def file_method(self, obj, v, name, args, n):
        if name == "is_open":
            return v.f["open"]
        if name == "close":
            self.write(obj, v.set("open", z3.BoolVal(False)))
            return None
        if name in ("good", "operator bool"):
            return v.f["open"]
        if name in ("fail", "operator!"):
            return z3.Not(v.f["open"])
        if name == "flush":
            return obj
        if name == "open":
            self.write(obj, self.file_construct(args))
            return None
        raise Unsupported("file method " + name)

    def stream_target(self, a):
        """Pointer argument under its casts: (pointee type, Ref)."""
        x = a
        while x.kind in ("ImplicitCastExpr", "CXXReinterpretCastExpr", "CStyleCastExpr", "ParenExpr",
                         "CXXStaticCastExpr", "CXXConstCastExpr"):
            if strip(x.inner[0].dtype).endswith("*") or x.kind != "ImplicitCastExpr":
                x = x.inner[0]
            else:
                break
        t = strip(x.dtype)
        if not t.endswith("*"):
            raise Unsupported("stream buffer of type " + t)
        t = strip(t[:-1])
        b = base_name(t)
        for i, s in enumerate(self.types.stream_types):
            if base_name(s) == b or int_info(s) and int_info(s) == int_info(t):
                return i, s, self.deref(self.ptr(self.e(x)))
        raise Unsupported("stream record of type " + t)

    def stream_method(self, obj, v, name, args, n):
        self.assumed.add("std::fstream (records read back as written; a read past the end fails)")
        args = [a for a in args if a.kind != "CXXDefaultArgExpr"]
        if name == "is_open":
            return v.f["open"]
        if name == "good":
            return v.f["good"]
        if name == "eof":
            return v.f["eof"]
        if name in ("fail", "bad", "operator!"):
            return z3.Not(v.f["good"])
        if name == "operator bool":
            return v.f["good"]
        if name == "gcount":
            return v.f["got"]
        if name in ("close", "flush"):
            if name == "close":
                self.write(obj, v.set("open", z3.BoolVal(False)))
            return None
        if name == "write":
            i, t, r = self.stream_target(args[0])
            val = norm(self.read(r))
            k = self.ev(args[1])
            ok = z3.And(v.f["open"], v.f["good"])
            whole = k == self.sizeof(t)
            c = v.f["rec"]
            w = v.set("kind", z3.Store(v.f["kind"], c, z3.If(whole, z3.IntVal(i), z3.IntVal(-1))))
            w = w.set("size", z3.Store(v.f["size"], c, k))
            d = "data_" + base_name(t)
            w = w.set(d, sto(v.f[d], c, val))
            w = w.set("rec", c + 1).set("pos", v.f["pos"] + k)
            self.write(obj, ite(ok, w, v))
            return obj
        if name == "read":
            i, t, r = self.stream_target(args[0])
            k = self.ev(args[1])
            ok = z3.And(v.f["open"], v.f["good"])
            enough = v.f["left"] >= k
            c = v.f["rec"]
            d = "data_" + base_name(t)
            match = z3.And(enough, k == self.sizeof(t), v.f["kind"][c] == i, v.f["size"][c] == k)
            old = norm(self.read(r))
            junk = self.sym(t, "junk")
            self.write(r, ite(ok, ite(match, sel(v.f[d], c), junk), old))
            w = v.set("rec", c + 1).set("pos", v.f["pos"] + k).set("left", v.f["left"] - k).set("got", k)
            f = v.set("good", z3.BoolVal(False)).set("eof", z3.BoolVal(True)).set("left", z3.IntVal(0))
            f = f.set("got", v.f["left"]).set("pos", v.f["pos"] + v.f["left"])
            e = v.set("got", z3.IntVal(0)).set("good", z3.BoolVal(False))
            self.write(obj, ite(ok, ite(enough, w, f), e))
            return obj
        raise Unsupported("stream method " + name)
