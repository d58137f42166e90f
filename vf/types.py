"""C++ type strings -> shapes of symbolic values."""
import re
import z3
from .ast import Unsupported
from .values import *

INTS = {
    "bool": (1, False), "char": (8, True), "signed char": (8, True),
    "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
    "int": (32, True), "unsigned int": (32, False), "unsigned": (32, False),
    "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
    "unsigned long long": (64, False), "int8_t": (8, True), "uint8_t": (8, False),
    "int16_t": (16, True), "uint16_t": (16, False), "int32_t": (32, True),
    "uint32_t": (32, False), "int64_t": (64, True), "uint64_t": (64, False),
    "size_t": (64, False), "std::size_t": (64, False), "size_type": (64, False),
    "ptrdiff_t": (64, True), "difference_type": (64, True), "Index": (64, True),
    "std::uint64_t": (64, False), "pcl::uint64_t": (64, False),
}

OPAQUE = ("std::mutex", "std::thread", "std::condition_variable", "boost::shared_mutex",
          "std::function", "std::random_device", "std::mersenne_twister_engine",
          "std::uniform_real_distribution", "std::ofstream", "std::ifstream",
          "std::basic_ofstream", "std::basic_ifstream", "std::basic_fstream",
          "std::basic_ostringstream", "std::basic_ostream", "std::packaged_task",
          "std::future", "pugi::", "GeographicLib::", "gtsam::", "google::")


MAPS = ("map", "unordered_map", "concurrent_unordered_map")


def strip(t):
    t = t.strip()
    changed = True
    while changed:
        changed = False
        for p in ("const ", "volatile ", "struct ", "class ", "enum ", "typename "):
            if t.startswith(p):
                t = t[len(p):].strip()
                changed = True
        for s in ("&&", "&", " const", "__restrict", " volatile"):
            if t.endswith(s):
                t = t[:-len(s)].strip()
                changed = True
    return t


def is_ref(t):
    return t.strip().endswith("&")


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<([{":
            depth += 1
        elif ch in ">)]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def template(t):
    """('std::vector', ['int']) or (t, None)."""
    t = strip(t)
    if not t.endswith(">"):
        return t, None
    depth = 0
    for i in range(len(t) - 1, -1, -1):
        if t[i] == ">":
            depth += 1
        elif t[i] == "<":
            depth -= 1
            if depth == 0:
                return t[:i].strip(), split_args(t[i + 1:-1])
    return t, None


def base_name(t):
    n, _ = template(t)
    return n.split("::")[-1]


def int_info(t):
    t = strip(t)
    return INTS.get(t) or INTS.get(t.split("::")[-1] if "<" not in t else t)


def is_float(t):
    t = strip(t)
    return t in ("float", "double", "long double") or t.split("::")[-1] in ("Scalar",) and False


PCLPTS = {
    "PointXYZ": ["x", "y", "z"], "_PointXYZ": ["x", "y", "z"],
    "PointXYZI": ["x", "y", "z", "intensity"], "_PointXYZI": ["x", "y", "z", "intensity"],
}
EIGEN_ALIAS = {}
for _n, _r, _c in [("Vector2", 2, 1), ("Vector3", 3, 1), ("Vector4", 4, 1),
                   ("Matrix2", 2, 2), ("Matrix3", 3, 3), ("Matrix4", 4, 4), ("VectorX", -1, 1)]:
    for _s, _t in (("d", "double"), ("f", "float"), ("i", "int")):
        EIGEN_ALIAS[_n + _s] = (_t, _r, _c)


class Types:
    stream_types = ()       # record types of file streams
    task_types = False      # model of threads, callables and futures

    def __init__(self, index, fp):
        self.index = index      # Index over TUs
        self.fp = fp

    def fsort(self, t):
        if self.fp == "real":
            return Real
        return F32 if strip(t) == "float" else F64

    def shape(self, t, leaf, hint="v", uninit=None):
        """leaf(sort, hint, rng) makes leaves.  uninit: leaf maker for
        uninitialised scalars (default: leaf)."""
        raw = t
        t = strip(t)
        m = re.match(r"^(.*?)\s*\[([^\[\]]*)\]$", t)
        if m and not t.endswith("(*)"):
            n = m.group(2)
            el = self.shape(m.group(1), lift_leaf(leaf), hint)
            ln = fixed(leaf, int(n), hint) if n.isdigit() else leaf(Int, hint + ".len", (0, 2 ** 31 - 1))
            return Seq("array", ln, el)
        if t == "bool" or t == "_Bool":
            return leaf(Bool, hint, None)
        ii = int_info(t)
        if ii:
            b, s = ii
            rng = (-(2 ** (b - 1)), 2 ** (b - 1) - 1) if s else (0, 2 ** b - 1)
            return leaf(Int, hint, rng)
        if t in ("float", "double", "long double"):
            return leaf(self.fsort(t), hint, None)
        if t.endswith("*"):
            return Ptr(leaf(Int, hint, None), base_name(t[:-1]))
        if t in ("std::string", "std::basic_string<char>", "string") or t.startswith("std::basic_string<"):
            return leaf(Str, hint, None)
        if t in ("std::nullptr_t", "void"):
            return Opaque(t)
        n, args = template(t)
        sn = n.split("::")[-1]
        if self.stream_types and sn in STREAMS:
            return stream_shape(self, leaf, hint)
        if self.task_types and sn in TASKS and n.startswith("std::"):
            return task_shape(sn, leaf, hint)
        if args is not None:
            if sn in ("vector", "deque", "list", "concurrent_vector", "queue", "initializer_list"):
                el = self.shape(args[0], lift_leaf(leaf), hint + ".el")
                return Seq(sn, leaf(Int, hint + ".len", (0, 2 ** 31 - 1)), el)
            if sn == "array":
                el = self.shape(args[0], lift_leaf(leaf), hint + ".el")
                return Seq("array", fixed(leaf, int(args[1]), hint), el)
            if sn in ("shared_ptr", "unique_ptr", "weak_ptr"):
                return Ptr(leaf(Int, hint, None), base_name(args[0]))
            if sn == "atomic":
                return self.shape(args[0], leaf, hint)
            if sn == "pair":
                return Struct("pair", {"first": self.shape(args[0], leaf, hint + ".first"),
                                       "second": self.shape(args[1], leaf, hint + ".second")})
            if sn == "tuple":
                return Struct("tuple", {str(i): self.shape(a, leaf, hint + ".%d" % i)
                                        for i, a in enumerate(args)})
            if sn == "optional":
                return Struct("optional", {"has": leaf(Bool, hint + ".has", None),
                                           "val": self.shape(args[0], leaf, hint + ".val")})
            if sn in MAPS or sn in ("set", "unordered_set"):
                kproto = self.shape(args[0], lambda s, h, r: z3.Const(h, s), hint + ".key")
                ks = [l.sort() for l in leaves(kproto)]
                ml = lambda s, h, r: leaf(nary(ks, s), h, None)
                el = self.shape(args[1], ml, hint + ".val") if sn in MAPS \
                    else Struct("unit", {})
                return Map(sn, kproto, leaf(nary(ks, Bool), hint + ".has", None), el,
                           leaf(Int, hint + ".size", (0, 2 ** 31 - 1)))
            if sn == "Matrix" and "Eigen" in n or sn == "Matrix":
                try:
                    r, c = int(args[1]), int(args[2])
                except (ValueError, IndexError):
                    raise Unsupported("type " + raw)
                return self.mat(args[0], r, c, leaf, hint)
            if sn == "Quaternion":
                return Struct("Quaternion", {k: self.shape(args[0], leaf, hint + "." + k)
                                             for k in ("w", "x", "y", "z")})
            if sn == "PointCloud":
                return Struct("PointCloud", {
                    "header": Struct("PCLHeader", {"stamp": leaf(Int, hint + ".stamp", (0, 2 ** 64 - 1))}),
                    "points": self.shape("std::vector<%s>" % args[0], leaf, hint + ".points"),
                    "width": leaf(Int, hint + ".width", (0, 2 ** 32 - 1)),
                    "height": leaf(Int, hint + ".height", (0, 2 ** 32 - 1))})
        if sn == "LocalCartesian":
            return Struct(sn, {k: leaf(self.fsort("double"), hint + "." + k, None) for k in ("lat0", "lon0", "h0")})
        if sn in EIGEN_ALIAS:
            s, r, c = EIGEN_ALIAS[sn]
            return self.mat(s, r, c, leaf, hint)
        if sn in ("Quaterniond", "Quaternionf"):
            return self.shape("Eigen::Quaternion<double>", leaf, hint)
        if sn in PCLPTS and "static_map" not in n:
            return Struct(sn, {k: leaf(self.fsort("float"), hint + "." + k, None) for k in PCLPTS[sn]})
        if self.stream_types and sn in STREAMS:
            return stream_shape(self, leaf, hint)
        if sn in XML:
            return xml_shape(sn, leaf, hint)
        for o in OPAQUE:
            if t.startswith(o):
                return Opaque(t)
        rec = self.index.record(t)
        if rec is not None:
            if rec.kind == "EnumDecl":
                return leaf(Int, hint, None)
            f = {}
            for name, ft in self.index.fields(rec):
                try:
                    f[name] = self.shape(ft, leaf, hint + "." + name)
                except Unsupported:
                    f[name] = Opaque(ft)
            return Struct(rec.name or "unnamed", f)
        if self.index.is_enum(t):
            return leaf(Int, hint, None)
        a = self.index.alias(t)
        if a is not None and strip(a) != t:
            return self.shape(a, leaf, hint)
        raise Unsupported("type " + raw)

    def mat(self, s, r, c, leaf, hint):
        if r < 0 or c < 0:
            if r > 0:
                el = self.mat(s, r, 1, lift_leaf(leaf), hint + ".col")
                return Seq("dynmat", leaf(Int, hint + ".cols", (0, 2 ** 31 - 1)), el)
            if r < 0 and c == 1:
                el = self.shape(s, lift_leaf(leaf), hint + ".v")
                return Seq("dynvec", leaf(Int, hint + ".size", (0, 2 ** 31 - 1)), el)
            # rows and columns dynamic: three-row point matrices (assumption
            # "point matrices have three rows" of the properties using them)
            el = self.mat(s, 3, 1, lift_leaf(leaf), hint + ".col")
            return Seq("dynmat", leaf(Int, hint + ".cols", (0, 2 ** 31 - 1)), el)
        return Mat(r, c, [self.shape(s, leaf, hint + ".%d_%d" % (i, j))
                          for i in range(r) for j in range(c)], strip(s))


def nary(ks, s):
    for k in reversed(list(ks)):
        s = z3.ArraySort(k, s)
    return s


def msel(a, ks):
    for k in ks:
        a = z3.Select(a, k)
    return a


def msto(a, ks, v):
    if not ks:
        return v
    return z3.Store(a, ks[0], msto(z3.Select(a, ks[0]), ks[1:], v))


def fixed(leaf, n, hint):
    """Constant length, also as part of the elements of a container."""
    def const(s):
        return z3.K(s.domain(), const(s.range())) if isinstance(s, z3.ArraySortRef) else z3.IntVal(n)
    return const(leaf(Int, hint + ".len", None).sort())


def lift_leaf(leaf):
    return lambda s, h, r: leaf(z3.ArraySort(Int, s), h, r)


from .stream import STREAMS, stream_shape  # noqa: E402
from .xml import XML, xml_shape            # noqa: E402
from .tasks import TASKS, task_shape       # noqa: E402
