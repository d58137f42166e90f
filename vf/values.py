"""Symbolic values: immutable trees whose leaves are z3 terms."""
from fractions import Fraction
import z3
from .ast import Unsupported

Int = z3.IntSort()
Bool = z3.BoolSort()
Real = z3.RealSort()
# Floating-point numbers of mode 'uf': uninterpreted values ordered by the real
# number they stand for (key); NaN is a predicate.  Comparisons are exact,
# arithmetic is uninterpreted.
F32 = z3.DeclareSort("F32")
F64 = z3.DeclareSort("F64")
_KEY = {F32: z3.Function("key32", F32, z3.RealSort()), F64: z3.Function("key64", F64, z3.RealSort())}
_NAN = {F32: z3.Function("nan32", F32, z3.BoolSort()), F64: z3.Function("nan64", F64, z3.BoolSort())}
INFK = z3.Real("infinity!key")
_lits = {}


def fkey(a):
    return _KEY[a.sort()](a)


def fnan(a):
    return _NAN[a.sort()](a)


def flit(v, sort):
    """Literal of an uninterpreted floating-point sort."""
    import struct
    v = float(v)
    if sort == F32 and v == v and abs(v) != float("inf"):
        try:
            v = struct.unpack("f", struct.pack("f", v))[0]
        except OverflowError:
            v = float("inf") if v > 0 else -float("inf")
    name = "%s:%r" % ("f" if sort == F32 else "d", v)
    if name not in _lits:
        c = z3.Const(name, sort)
        if v != v:
            ax = [fnan(c)]
        elif abs(v) == float("inf"):
            ax = [z3.Not(fnan(c)), fkey(c) == (INFK if v > 0 else -INFK)]
        else:
            ax = [z3.Not(fnan(c)), fkey(c) == z3.RealVal(Fraction(v))]
        _lits[name] = (c, v, ax)
    return _lits[name][0]


def fval(a):
    """Python value of a literal, or None."""
    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        e = _lits.get(a.decl().name())
        if e is not None:
            return e[1]
    return None


def lit_axioms():
    out = [INFK > z3.RealVal(2 ** 1025)]
    for c, v, ax in _lits.values():
        out.extend(ax)
    return out

Str = z3.DeclareSort("Str")
Opq = z3.DeclareSort("Opq")


class Val:
    def leaves(self):
        return []

    def with_leaves(self, it):
        return self


class Struct(Val):
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def leaves(self):
        out = []
        for v in self.f.values():
            out.extend(leaves(v))
        return out

    def with_leaves(self, it):
        return Struct(self.cls, {k: with_leaves(v, it) for k, v in self.f.items()})

    def get(self, k):
        if k not in self.f:
            raise Unsupported("field %s of %s" % (k, self.cls))
        return self.f[k]

    def set(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Struct(self.cls, d)

    def __repr__(self):
        return "%s{%s}" % (self.cls, ", ".join("%s=%s" % kv for kv in self.f.items()))


class Mat(Val):
    """Fixed-size matrix, row major list of scalar terms."""
    __slots__ = ("r", "c", "e", "sc")

    def __init__(self, r, c, e, sc="double"):
        self.r, self.c, self.e, self.sc = r, c, list(e), sc
        assert len(self.e) == r * c, (r, c, len(self.e))

    def leaves(self):
        return list(self.e)

    def with_leaves(self, it):
        return Mat(self.r, self.c, [next(it) for _ in self.e], self.sc)

    def at(self, i, j=0):
        return self.e[i * self.c + j]

    def __repr__(self):
        return "Mat%dx%d%s" % (self.r, self.c, self.e)


class Seq(Val):
    """vector / deque / array.  el: element tree whose leaves are arrays."""
    __slots__ = ("kind", "n", "el")

    def __init__(self, kind, n, el):
        self.kind, self.n, self.el = kind, n, el

    def leaves(self):
        return [self.n] + leaves(self.el)

    def with_leaves(self, it):
        n = next(it)
        return Seq(self.kind, n, with_leaves(self.el, it))

    def __repr__(self):
        return "Seq(%s)" % (self.n,)


class Map(Val):
    """Associative container: presence and value arrays over flattened keys."""
    __slots__ = ("kind", "ksorts", "kproto", "pres", "el", "size", "ref")

    def __init__(self, kind, kproto, pres, el, size, ref=None):
        self.kind, self.kproto, self.pres, self.el, self.size = kind, kproto, pres, el, size
        self.ksorts = [l.sort() for l in leaves(kproto)]

    def leaves(self):
        return [self.size, self.pres] + leaves(self.el)

    def with_leaves(self, it):
        s = next(it)
        p = next(it)
        return Map(self.kind, self.kproto, p, with_leaves(self.el, it), s)


class Ptr(Val):
    __slots__ = ("t", "cls")

    def __init__(self, t, cls):
        self.t, self.cls = t, cls

    def leaves(self):
        return [self.t]

    def with_leaves(self, it):
        return Ptr(next(it), self.cls)

    def __repr__(self):
        return "Ptr<%s>(%s)" % (self.cls, self.t)


class Iter(Val):
    """Iterator: container location + position (or key tree for maps; en: the
    enumeration of the keys of a map, for iterators obtained by begin())."""
    __slots__ = ("loc", "pos", "rev", "key", "en")

    def __init__(self, loc, pos, rev=False, key=None, en=None):
        self.loc, self.pos, self.rev, self.key, self.en = loc, pos, rev, key, en

    def leaves(self):
        return [self.pos] + (leaves(self.key) if self.key is not None and self.en is None else [])

    def with_leaves(self, it):
        p = next(it)
        return Iter(self.loc, p, self.rev,
                    with_leaves(self.key, it) if self.key is not None and self.en is None else self.key, self.en)


class Enum:
    """Enumeration of the keys of a map: key functions of the position, position
    function of the key, number of keys."""

    def __init__(self, keys, inv, size, pres):
        self.keys, self.inv, self.size, self.pres = keys, inv, size, pres

    def key(self, j):
        return [f(j) for f in self.keys]

    def pos(self, ks):
        return self.inv(*ks)


class Opaque(Val):
    __slots__ = ("tag",)

    def __init__(self, tag=""):
        self.tag = tag

    def __repr__(self):
        return "Opaque(%s)" % self.tag


class Lambda(Val):
    __slots__ = ("node", "frame", "this")

    def __init__(self, node, frame, this):
        self.node, self.frame, self.this = node, frame, this


class FuncRef(Val):
    __slots__ = ("name", "decl", "node")

    def __init__(self, name, decl, node=None):
        self.name, self.decl, self.node = name, decl, node


class StrLit(Val):
    """String literal: kept as Python text, has a Str term."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


def leaves(v):
    if z3.is_expr(v):
        return [v]
    return v.leaves()


def with_leaves(v, it):
    if z3.is_expr(v):
        return next(it)
    return v.with_leaves(it)


def rebuild(v, terms):
    return with_leaves(v, iter(terms))


def tmap(fn, v):
    return rebuild(v, [fn(x) for x in leaves(v)])


_strs = {}


def str_term(s):
    if s not in _strs:
        _strs[s] = z3.Const("str!%d!%s" % (len(_strs), "".join(
            ch for ch in s if ch.isalnum())[:20]), Str)
    return _strs[s]


def null_str():
    """The null pointer where a C string is expected."""
    return z3.Const("null_str", Str)


def str_axioms():
    ts = list(_strs.values()) + [null_str()]
    return [z3.Distinct(*ts)] if len(ts) > 1 else []


def str_literal(t):
    return z3.is_const(t) and t.sort() == Str and t.decl().name().startswith("str!")


def unfold_select(t):
    """Selections from stores and conditionals as conditionals over the stored
    values (pointer terms)."""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return unfold_select(a if z3.is_true(c) else b)
        return z3.If(c, unfold_select(a), unfold_select(b))
    if not z3.is_select(t) or t.num_args() != 2:
        return t
    a, i = t.children()
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        return unfold_select(z3.If(a.arg(0), z3.Select(a.arg(1), i), z3.Select(a.arg(2), i)))
    if z3.is_const_array(a):
        return a.arg(0)
    if z3.is_store(a) and a.num_args() == 3:
        k = a.arg(1)
        rest = lambda: unfold_select(z3.Select(a.arg(0), i))
        if k.eq(i):
            return unfold_select(a.arg(2))
        if str_literal(k) and str_literal(i):
            return rest()
        c = z3.simplify(i == k)
        if z3.is_false(c):
            return rest()
        if z3.is_true(c):
            return unfold_select(a.arg(2))
        r, v = rest(), unfold_select(a.arg(2))
        return v if v.eq(r) else z3.If(c, v, r)
    return t


def norm(v):
    """Literal strings become Str terms when they enter memory."""
    if isinstance(v, StrLit):
        return str_term(v.s)
    return v


def same_shape(a, b):
    la, lb = leaves(a), leaves(b)
    return len(la) == len(lb) and all(x.sort() == y.sort() for x, y in zip(la, lb))


def ite(c, a, b):
    """Merge two values under condition c."""
    if a is b:
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    a, b = norm(a), norm(b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return a if isinstance(a, Opaque) else b
    if isinstance(a, (Lambda, FuncRef)):
        return a
    if isinstance(a, Iter) and isinstance(b, Iter) and a.loc != b.loc:
        raise Unsupported("merging iterators of different containers")
    la, lb = leaves(a), leaves(b)
    if len(la) != len(lb):
        raise Unsupported("merge of values with different shapes: %r / %r" % (a, b))
    out = []
    for x, y in zip(la, lb):
        if x.eq(y):
            out.append(x)
        elif x.sort() != y.sort():
            raise Unsupported("merge of different sorts %s %s" % (x.sort(), y.sort()))
        else:
            out.append(z3.If(c, x, y))
    return rebuild(a, out)


def default_of(sort):
    if sort == Int:
        return z3.IntVal(0)
    if sort == Bool:
        return z3.BoolVal(False)
    if sort == Real:
        return z3.RealVal(0)
    if sort == F32 or sort == F64:
        return flit(0.0, sort)
    if isinstance(sort, z3.ArraySortRef):
        return z3.K(sort.domain(), default_of(sort.range()))
    if sort == Str:
        return str_term("")
    raise Unsupported("default of sort %s" % sort)


def lift_default(v):
    """Element tree -> tree of constant arrays (canonical empty)."""
    return tmap(lambda t: z3.K(Int, default_of(t.sort())), v)


def sel(el, i):
    return tmap(lambda a: z3.simplify(z3.Select(a, i)) if _cheap(a) else z3.Select(a, i), el)


def _cheap(a):
    return z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY)


def sto(el, i, v):
    v = norm(v)
    la, lv = leaves(el), leaves(v)
    if len(la) != len(lv):
        raise Unsupported("store of value with different shape")
    return rebuild(el, [z3.Store(a, i, x) for a, x in zip(la, lv)])


def eq(a, b):
    """Structural equality as a formula (arrays extensionally)."""
    a, b = norm(a), norm(b)
    la, lb = leaves(a), leaves(b)
    if len(la) != len(lb):
        raise Unsupported("equality of different shapes")
    cs = []
    for x, y in zip(la, lb):
        if x.eq(y):
            continue
        if x.sort() != y.sort():
            raise Unsupported("equality of sorts %s and %s" % (x.sort(), y.sort()))
        cs.append(x == y)
    return z3.And(*cs) if cs else z3.BoolVal(True)


class Loc:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def sub(self, *items):
        return Loc(self.root, self.path + items)

    def f(self, name):
        return self.sub(("f", name))

    def i(self, idx):
        return self.sub(("i", idx))

    def key(self):
        return (self.root,) + tuple(
            (k, x if isinstance(x, (str, int)) else
             (x.get_id() if z3.is_expr(x) else tuple(t.get_id() for t in x)))
            for k, x in self.path)

    def __eq__(self, o):
        return isinstance(o, Loc) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return self.root + "".join(
            ("." + x) if k == "f" else "[%s]" % (x,) for k, x in self.path)


_hq = {}


def has_quant(t):
    k = t.get_id()
    if k not in _hq:
        _hq[k] = z3.is_quantifier(t) or any(has_quant(c) for c in t.children())
    return _hq[k]
