"""Model of pugi::xml: a node is an identifier (0: none); its children,
attributes and texts are functions of it (the document does not change)."""
import z3
from .ast import Unsupported
from .values import *

XML = ("xml_node", "xml_attribute", "xml_text", "xml_document", "xml_parse_result")


def xml_shape(sn, leaf, hint):
    return Struct(sn, {"id": leaf(Int, hint + ".id", None)})


def child(node, name):
    return z3.Function("xml_child", Int, Str, Int)(node, name)


def sibling(node, name):
    return z3.Function("xml_sibling", Int, Str, Int)(node, name)


def attr(node, name):
    return z3.Function("xml_attribute", Int, Str, Int)(node, name)


def attr_str(a):
    return z3.Function("xml_string", Int, Str)(a)


def attr_int(a):
    return z3.Function("xml_int", Int, Int)(a)


def attr_num(a, sort, what):
    return z3.Function("xml_" + what, Int, sort)(a)


def document(name):
    return z3.Function("xml_document", Str, Int)(name)


def loads(name):
    """Not 0: the file of this name holds a document."""
    return z3.Function("xml_loads", Str, Int)(name)


def text_int(node):
    return z3.Function("xml_text_int", Int, Int)(node)


def text_num(node, sort, what):
    return z3.Function("xml_text_" + what, Int, sort)(node)


def node_name(node):
    return z3.Function("xml_name", Int, Str)(node)


class XmlMixin:
    def xml_method(self, obj, v, name, args, n):
        self.assumed.add("pugi::xml (children, attributes and texts of a node are fixed; text conversions give the "
                         "declared type)")
        args = [a for a in args if a.kind != "CXXDefaultArgExpr"]
        i = v.f["id"]
        s = lambda k: norm(self.ev(args[k]))
        if name.startswith("operator ") and not args:
            return i != 0
        if name == "operator!" or name == "empty":
            return i == 0
        if v.cls == "xml_document" and name == "load_file" and len(args) == 1:
            f = s(0)
            ok = loads(f)
            self.write(self.ref(obj), Struct(v.cls, {"id": z3.If(ok != 0, document(f), self.fresh(Int, "no_document"))}))
            return Struct("xml_parse_result", {"id": ok})
        if v.cls in ("xml_node", "xml_document"):
            if name == "child":
                return Struct("xml_node", {"id": self.xml_part(i, child(i, s(0)))})
            if name == "next_sibling":
                return Struct("xml_node", {"id": self.xml_part(i, sibling(i, s(0)))})
            if name == "attribute":
                return Struct("xml_attribute", {"id": self.xml_part(i, attr(i, s(0)))})
            if name == "internal_object":
                return Struct("xml_node", {"id": i})
            if name == "text":
                return Struct("xml_text", {"id": i})
            if name == "name":
                return node_name(i)
        if v.cls == "xml_attribute" and len(args) <= 1:
            t = None
            if name == "as_string" or name == "value" and not args:
                t, none = attr_str(i), str_term("")
            if name == "as_int":
                t, none = self.xml_range(attr_int(i)), z3.IntVal(0)
            if name == "as_bool":
                t, none = attr_num(i, Bool, "bool"), z3.BoolVal(False)
            if name in ("as_float", "as_double"):
                # as_float rounds what as_double gives
                t = attr_num(i, self.types.fsort(n.dtype), "number" if self.fp == "real" else name[3:])
                none = self.zero(n.dtype)
            if t is not None:
                return z3.If(i != 0, t, s(0) if args else none)
        if v.cls == "xml_text" and not args:
            if name == "as_int":
                return self.xml_range(text_int(i))
            if name in ("as_float", "as_double"):
                return text_num(i, self.types.fsort(n.dtype), name[3:])
        raise Unsupported("xml method " + name)

    def xml_part(self, whole, part):
        self.fact(z3.Implies(whole == 0, part == 0))
        return part

    def xml_range(self, t):
        self.fact(z3.And(t >= -2 ** 31, t < 2 ** 31))
        return t
