"""Assumed contracts of library functions (std, boost, glog, pcl)."""
import z3
from .ast import Unsupported
from .values import *
from .types import strip, template, base_name, int_info, msel, msto, MAPS
from .xml import XML
from .stream import STREAMS
from .tasks import TASKS

SEQ = ("vector", "deque", "array", "list", "concurrent_vector", "queue", "init", "initializer_list")


class LibMixin:
    map_known = False       # look for keys known to be present before inserting a default

    # ------------------------------------------------------------ iterators
    def iter_add(self, it, k):
        if not z3.is_expr(k):
            k = z3.IntVal(k)
        return Iter(it.loc, z3.simplify(it.pos + k), it.rev, it.key, it.en)

    def iter_op(self, op, x, y, n):
        if isinstance(x, Iter) and isinstance(y, Iter):
            if op == "-":
                return z3.simplify(x.pos - y.pos) if not x.rev else z3.simplify(y.pos - x.pos)
            f = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
                 "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}.get(op)
            if f is None:
                raise Unsupported("iterator " + op)
            return f(y.pos, x.pos) if x.rev else f(x.pos, y.pos)
        if isinstance(x, Iter) and op in ("+", "-"):
            k = y if op == "+" else -y
            if x.rev:
                k = -k
            return self.iter_add(x, k)
        if isinstance(y, Iter) and op == "+":
            return self.iter_add(y, x)
        raise Unsupported("iterator operator " + op)

    def deref_iter(self, it):
        from .engine import Ref
        v = self.nav(self.root_val(self.st, it.loc.root), it.loc.path)
        if isinstance(v, Map):
            return self.map_iter_deref(it, v)
        if isinstance(v, Mat):
            k = it.pos
            return Ref(it.loc.sub(("e", k.as_long() if z3.is_int_value(k) else k)))
        if not isinstance(v, Seq):
            raise Unsupported("iterator into %r" % (v,))
        self.safe(z3.And(it.pos >= 0, it.pos < v.n), "element index in range")
        return Ref(it.loc.i(it.pos))

    def map_iter_deref(self, it, m):
        from .engine import Ref
        if it.key is None:
            raise Unsupported("map iterator")
        if it.en is not None:
            self.safe(z3.And(it.pos >= 0, it.pos < it.en.size), "element index in range")
            it = Iter(it.loc, it.pos, False, rebuild(it.key, it.en.key(it.pos)))
        loc = Loc(it.loc.root, it.loc.path + (("m", tuple(leaves(it.key))),))
        if m.kind in ("set", "unordered_set"):
            return self.ref(it.key)
        st = Struct("mapref", {})
        # pair view: first is a copy of the key, second an alias
        r = Ref(self.new_root(Struct("pair", {"first": it.key, "second": Opaque("alias")}), "mapref"))
        self.mapalias = getattr(self, "mapalias", {})
        self.mapalias[r.alts[0][1].root] = loc
        return r

    def member_loc(self, l, name):
        ma = getattr(self, "mapalias", None)
        if ma and name == "second" and not l.path and l.root in ma:
            return ma[l.root]
        return l.f(name)

    # ------------------------------------------------------------ functions
    def lib_call(self, name, args, n, cnode):
        m = getattr(self, "f_" + name.replace("operator", "op_") if name.isidentifier() else "", None)
        if m is not None:
            return m(args, n)
        if name in ("move", "forward", "ref", "cref", "addressof", "as_const"):
            return self.e(args[0])
        if name in ("sqrt", "sqrtf"):
            return self.num.sqrt(self.fev(args[0], n))
        if name in ("abs", "fabs", "fabsf"):
            v = self.ev(args[0])
            if v.sort() == Int:
                return z3.If(v >= 0, v, -v)
            return self.num.abs(v)
        if name in ("sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "floor", "ceil",
                    "round", "lround", "sinf", "cosf", "expf", "floorf"):
            nm = name[:-1] if name.endswith("f") and name != "f" else name
            self.assumed.add("std::" + nm)
            r = self.num.fn(nm, self.fev(args[0], n))
            return r
        if name == "pow" and self.fp == "real" and len(args) == 2:
            k = z3.simplify(self.num.cast(self.ev(args[1]), args[1].dtype, "double"))
            if z3.is_rational_value(k) and k.as_fraction() == 2:
                x = self.num.cast(self.ev(args[0]), args[0].dtype, "double")
                return self.num.mul(x, x)
        if name in ("atan2", "pow", "fmod", "hypot", "atan2f"):
            self.assumed.add("std::" + name)
            return self.num.fn(name.rstrip("f") if name == "atan2f" else name,
                               self.fev(args[0], n), self.fev(args[1], n))
        if name in ("isnan", "isfinite", "isinf"):
            v = self.ev(args[0])
            if self.fp == "real":
                return z3.BoolVal(name == "isfinite")
            inf = z3.And(z3.Not(fnan(v)), z3.Or(fkey(v) == INFK, fkey(v) == -INFK))
            return {"isnan": fnan(v), "isinf": inf, "isfinite": z3.Not(z3.Or(fnan(v), inf))}[name]
        if name in ("min", "max"):
            if not args:
                return self.limit(n, name)
            if len(args) == 1:
                l = next((x for x in args[0].walk() if x.kind == "InitListExpr"), None)
                if l is None or not l.inner:
                    raise Unsupported(name + " of a list")
                vs = [self.ev(x) for x in l.inner]
            else:
                vs = [self.ev(args[0]), self.ev(args[1])]
            a = vs[0]
            if isinstance(a, Struct):
                a, b = norm(a), norm(vs[1])
                c = self.struct_cmp("<", None, None, b, a, n) if name == "min" else self.struct_cmp("<", None, None, a, b, n)
                if len(vs) != 2:
                    raise Unsupported(name + " of a list")
                return ite(c, b, a)
            lt = (lambda x, y: x < y) if a.sort() == Int else self.num.lt
            for b in vs[1:]:
                a = z3.If(lt(b, a), b, a) if name == "min" else z3.If(lt(a, b), b, a)
            return a
        if name in ("lowest", "epsilon", "infinity", "quiet_NaN"):
            return self.limit(n, name)
        if name == "make_shared" or name == "make_unique" or name == "allocate_shared":
            return self.make_shared(args, n)
        if name in ("make_pair",):
            return Struct("pair", {"first": norm(self.ev(args[0])), "second": norm(self.ev(args[1]))})
        if name in ("make_tuple", "forward_as_tuple", "tie"):
            return Struct("tuple", {str(i): norm(self.ev(a)) for i, a in enumerate(args)})
        if name == "swap":
            a, b = self.lv(args[0]), self.lv(args[1])
            x, y = self.read(a), self.read(b)
            self.write(a, y)
            self.write(b, x)
            return None
        if name.startswith("__builtin_expect"):
            return self.e(args[0])
        if name == "strlen":
            v = norm(self.ev(args[0]))
            if z3.is_expr(v) and v.sort() == Str:
                return self.str_length(v)
        if name in ("to_string",):
            v = self.ev(args[0])
            return z3.Function("to_string_" + str(v.sort()).replace(" ", ""), v.sort(), Str)(v)
        if name in ("begin", "end", "cbegin", "cend"):
            r = self.lv(args[0])
            return self.seq_iter(r, name)
        if name in ("distance",):
            return self.iter_op("-", self.ev(args[1]), self.ev(args[0]), n)
        if name in ("next", "prev"):
            k = self.ev(args[1]) if len(args) > 1 and args[1].kind != "CXXDefaultArgExpr" else z3.IntVal(1)
            return self.iter_add(self.ev(args[0]), k if name == "next" else -k)
        if name in ("advance",):
            r = self.lv(args[0])
            self.write(r, self.iter_add(self.read(r), self.ev(args[1])))
            return None
        if name in ("GetReferenceableValue",):
            return self.e(args[0])
        if name.startswith("Check_") and name.endswith("Impl"):
            return self.glog_check(name, args, n)
        if name in ("MakeCheckOpString",):
            return Ptr(z3.IntVal(1), "CheckOp")
        if name in ("copy", "copy_if", "transform", "fill", "for_each", "iota", "sort", "accumulate",
                    "remove_if", "any_of", "all_of", "none_of", "count_if", "find_if", "lower_bound",
                    "upper_bound", "back_inserter", "copy_n", "reverse", "find", "count", "min_element",
                    "max_element", "fill_n", "partition", "stable_partition", "unique", "binary_search",
                    "partial_sort", "nth_element", "shuffle", "random_shuffle", "set_union", "includes"):
            return self.algorithm(name, args, n)
        if name in ("printf", "fprintf", "puts", "print", "fflush", "gettimeofday", "usleep"):
            for a in args:
                try:
                    self.e(a)
                except Unsupported:
                    pass
            self.assumed.add(name + " (no effect on program state)")
            return Opaque(name)
        if name in ("Identity", "Zero", "Ones", "Constant", "Random", "UnitX", "UnitY", "UnitZ"):
            return self.eigen_static(name, args, n)
        if name == "get" and len(args) == 1:
            return self.std_get(args, n, cnode)
        if name in ("ignore_result",):
            return None
        if name.startswith("savePCDFile"):
            for a in args:
                self.ev(a)
            self.assumed.add("pcl::io::%s (no effect on program state)" % name)
            return self.fresh(Int, "written")
        raise Unsupported("library function %s in %s" % (name, self.where()))

    def fev(self, a, n):
        v = self.ev(a)
        if v.sort() == Int:
            v = self.num.cast(v, None, "double")
        return v

    def limit(self, n, name):
        t = strip(n.dtype)
        ii = int_info(t)
        if ii:
            b, s = ii
            if name == "max":
                return z3.IntVal(2 ** (b - 1) - 1 if s else 2 ** b - 1)
            return z3.IntVal(-(2 ** (b - 1)) if s else 0)
        import sys
        v = {("max", "double"): sys.float_info.max, ("lowest", "double"): -sys.float_info.max,
             ("min", "double"): sys.float_info.min, ("epsilon", "double"): sys.float_info.epsilon,
             ("max", "float"): 3.4028234663852886e38, ("lowest", "float"): -3.4028234663852886e38,
             ("min", "float"): 1.1754943508222875e-38, ("epsilon", "float"): 1.1920928955078125e-07}.get((name, t))
        if v is None:
            if name == "infinity" and self.fp == "uf":
                return flit(float("inf"), self.num.fsort(t))
            if name == "infinity" and self.num.infinity is not None:
                return self.num.infinity
            if name == "quiet_NaN" and self.fp == "uf":
                return flit(float("nan"), self.num.fsort(t))
            raise Unsupported("numeric limit %s<%s>" % (name, t))
        return self.num.const(v, t)

    def make_shared(self, args, n):
        t, a = template(n.dtype)
        cls = a[0]
        rec = self.index.record(cls) if not self.lib_type(cls) else None
        if rec is not None:
            v = self.construct(rec, args, None, n) if not args else self.construct_guess(rec, args, n)
        else:
            v = self.lib_construct(cls, args, n)
        return self.new_object(v, "new_" + base_name(cls), base_name(cls))

    def construct_guess(self, rec, args, n):
        return self.construct(rec, args, None, n)

    def std_get(self, args, n, cnode):
        r = self.lv(args[0])
        raise Unsupported("std::get")

    # ------------------------------------------------------------ glog
    def glog_check(self, name, args, n):
        a, b = self.ev(args[0]), self.ev(args[1])
        op = {"EQ": "==", "NE": "!=", "LE": "<=", "LT": "<", "GE": ">=", "GT": ">"}[name[6:8]]
        if isinstance(a, Struct) and isinstance(b, Struct):
            c = self.struct_cmp(op, args[0], args[1], a, b, n)
        elif isinstance(a, Mat):
            c = eq(a, b)
        else:
            a, b = norm(a), norm(b)
            if z3.is_expr(a) and a.sort() == Str:
                c = (a == b) if op == "==" else (a != b)
            else:
                c = self.binop(op, a, b, n, args[0].dtype)
        return Ptr(z3.If(c, z3.IntVal(0), z3.IntVal(1)), "CheckOp")

    def struct_cmp(self, op, na, nb, a, b, n):
        rec = self.index.record(a.cls)
        if rec is None:
            raise Unsupported("comparison of " + a.cls)
        for f in self.index.methods.get((rec.name, "operator" + op), ()):
            r = self.invoke(f, self.ref(a), [b])
            return self.val(r)
        raise Unsupported("comparison of " + a.cls)

    def fatal(self):
        from .engine import Dead
        self.aborts.append(self.st)
        self.st = None
        raise Dead()

    # ------------------------------------------------------------ construction
    def lib_construct(self, t, args, n):
        t = strip(t)
        b, targs = template(t)
        sn = b.split("::")[-1]
        real = [a for a in args if a.kind != "CXXDefaultArgExpr"]
        if sn in ("LogMessageFatal", "NullStreamFatal"):
            self.fatal()
        if sn in ("LogMessage", "LogMessageVoidify", "ErrnoLogMessage", "CheckOpString"):
            if sn == "CheckOpString" and real:
                return self.e(real[0])
            sev = [self.ev(a) for a in real]
            if sn == "LogMessage" and len(sev) >= 3 and z3.is_expr(sev[2]) and z3.is_int_value(sev[2]) \
                    and sev[2].as_long() == 3:
                self.fatal()
            return Opaque(sn)
        if sn in ("shared_ptr", "unique_ptr", "weak_ptr", "__shared_ptr"):
            if not real:
                return Ptr(z3.IntVal(0), base_name(targs[0]))
            v = self.ev(real[0])
            if isinstance(v, Ptr):
                return Ptr(v.t, base_name(targs[0]) if v.cls in ("null", "?") else v.cls)
            raise Unsupported("shared_ptr from %r" % (v,))
        if sn in ("vector", "deque", "list", "queue", "concurrent_vector"):
            return self.seq_construct(t, sn, targs, real, n)
        if sn in ("basic_string", "string"):
            if not real:
                return str_term("")
            v = norm(self.ev(real[0]))
            if isinstance(v, Opaque):
                return self.fresh(Str, "str")
            if z3.is_expr(v) and v.sort() == Str:
                return v
            raise Unsupported("string construction")
        if self.types.stream_types == "files" and sn in STREAMS:
            return self.file_construct(real)
        if self.types.task_types and sn in TASKS:
            return self.task_construct(sn, real, n)
        if sn in XML:
            return self.ev(real[0]) if real else Struct(sn, {"id": z3.IntVal(0)})
        if sn == "LocalCartesian":
            return self.geo_construct(real)
        if sn == "pair":
            if len(real) == 1:
                return self.ev(real[0])
            if not real:
                return self.default(t)
            return Struct("pair", {"first": norm(self.ev(real[0])), "second": norm(self.ev(real[1]))})
        if sn == "tuple":
            if len(real) == 1 and len(targs) != 1:
                return self.ev(real[0])
            return Struct("tuple", {str(i): norm(self.ev(a)) for i, a in enumerate(real)})
        if sn == "atomic":
            return self.ev(real[0]) if real else self.default(targs[0])
        if sn == "optional":
            if not real:
                return self.default(t)
            v = self.ev(real[0])
            if isinstance(v, Struct) and v.cls == "optional":
                return v
            if isinstance(v, Opaque):
                return self.default(t)
            return Struct("optional", {"has": z3.BoolVal(True), "val": v})
        if sn in MAPS or sn in ("set", "unordered_set"):
            if not real:
                return self.zero(t)
            v = self.ev(real[0])
            if isinstance(v, Map):
                return v
            raise Unsupported("map construction")
        if "Eigen" in t:
            return self.eigen_construct(t, sn, targs, real, n)
        if sn in ("PointXYZ", "PointXYZI", "_PointXYZ", "_PointXYZI", "PointCloud"):
            if not real:
                return self.zero(t)
            v = self.ev(real[0])
            if isinstance(v, Struct):
                return v
            if sn == "PointXYZ":
                return Struct(sn, dict(zip("xyz", [self.ev(a) for a in real])))
            raise Unsupported("pcl construction")
        if sn in ("MutexLocker", "Locker", "unique_lock", "lock_guard", "scoped_lock", "shared_lock", "upgrade_lock",
                  "upgrade_to_unique_lock"):
            return self.lock_construct(sn, real, n)
        if sn in ("move_iterator", "reverse_iterator", "__normal_iterator", "_Deque_iterator"):
            return self.ev(real[0])
        if len(real) == 1 and ("iterator" in sn.lower()):
            return self.ev(real[0])
        for a in real:
            try:
                self.e(a)
            except Unsupported:
                pass
        self.assumed.add("construction of " + b + " (opaque)")
        return Opaque(t)

    def geo_construct(self, real):
        vs = [self.ev(a) for a in real if a.kind != "CXXDefaultArgExpr"]
        if len(vs) == 1 and isinstance(vs[0], Struct):
            return vs[0]
        z = self.num.const(0.0, "double")
        vs = [v for v in vs if z3.is_expr(v)] + [z] * 3
        return Struct("LocalCartesian", dict(zip(("lat0", "lon0", "h0"), vs)))

    def geo_method(self, obj, v, name, args, n):
        self.assumed.add("GeographicLib::LocalCartesian (east, north and up are functions of origin and position)")
        if name == "Forward" and len(args) >= 6:
            ls = list(v.f.values()) + [self.ev(a) for a in args[:3]]
            for k, a in zip(("east", "north", "up"), args[3:6]):
                self.write(self.lv(a), z3.Function("geo_" + k, *([x.sort() for x in ls] + [ls[0].sort()]))(*ls))
            return None
        if name == "Reset":
            self.write(obj, Struct("LocalCartesian", dict(zip(v.f, [self.ev(a) for a in args[:3]]))))
            return None
        if name in ("LatitudeOrigin", "LongitudeOrigin", "HeightOrigin"):
            return v.f[{"La": "lat0", "Lo": "lon0", "He": "h0"}[name[:2]]]
        raise Unsupported("LocalCartesian::" + name)

    def seq_construct(self, t, sn, targs, real, n):
        if not real:
            return self.default(t)
        v0 = self.val(self.e(real[0]))
        if isinstance(v0, Seq) and len(real) == 1:
            return Seq(sn, v0.n, v0.el)
        if isinstance(v0, Iter) and len(real) >= 2:
            v1 = self.ev(real[1])
            c = self.nav(self.root_val(self.st, v0.loc.root), v0.loc.path)
            if z3.is_int_value(v0.pos) and v0.pos.as_long() == 0:
                return Seq(sn, v1.pos, c.el)
            return Seq(sn, z3.simplify(v1.pos - v0.pos), shift(self, c.el, v0.pos))
        if z3.is_expr(v0) and v0.sort() == Int:
            if len(real) >= 2 and real[1].kind != "CXXDefaultArgExpr":
                x = norm(self.ev(real[1]))
                if not (isinstance(x, Opaque)):
                    el = tmap(lambda l: z3.K(Int, l), x)
                    return Seq(sn, v0, el)
            d = self.default(t)
            el = self.zero(targs[0])
            return Seq(sn, v0, tmap(lambda l: z3.K(Int, l), el))
        raise Unsupported("container construction")

    def init_list(self, n):
        t = strip(n.dtype)
        b, targs = template(t)
        sn = b.split("::")[-1]
        if "[" in t and t.endswith("]"):
            base = self.zero(t)
            filler = None
            vals = [norm(self.ev(x)) for x in n.inner if x.kind != "ImplicitValueInitExpr"]
            if n.get("array_filler"):
                vals = [norm(self.ev(self.node_of(n, x))) for x in n.get("array_filler")
                        if x.get("kind") != "ImplicitValueInitExpr"]
            el = base.el
            for i, v in enumerate(vals):
                el = sto(el, z3.IntVal(i), v)
            return Seq("array", base.n, el)
        if sn == "initializer_list" or sn in SEQ:
            vals = [norm(self.ev(x)) for x in n.inner]
            return self.seq_of(vals, t if targs else None)
        rec = self.index.record(t) if not self.lib_type(t) else None
        if rec is not None:
            names = [k for k, _ in self.index.fields(rec)]
            f = {}
            for k, x in zip(names, n.inner):
                f[k] = norm(self.ev(x))
            o = self.raw_object(rec)
            return Struct(rec.name, {k: f.get(k, v) for k, v in o.f.items()})
        if len(n.inner) == 1:
            return self.e(n.inner[0])
        if not n.inner:
            return self.zero(t)
        raise Unsupported("initialiser list of " + t)

    def node_of(self, n, d):
        from .ast import Node
        return Node(d, n.tu, n)

    def seq_of(self, vals, t=None):
        if not vals:
            if t is None:
                raise Unsupported("empty list")
            return self.zero(t)
        el = lift_default(vals[0])
        for i, v in enumerate(vals):
            el = sto(el, z3.IntVal(i), v)
        return Seq("init", z3.IntVal(len(vals)), el)

    # ------------------------------------------------------------ methods
    def lib_method(self, obj, name, args, n):
        v = self.read_header(obj)
        if isinstance(v, Seq):
            if v.kind in ("dynmat", "dynvec"):
                return self.dyn_method(obj, v, name, args, n)
            return self.seq_method(obj, v, name, args, n)
        if isinstance(v, Mat):
            return self.mat_method(obj, v, name, args, n)
        if isinstance(v, Ptr):
            return self.ptr_method(obj, v, name, args, n)
        if isinstance(v, Map):
            return self.map_method(obj, v, name, args, n)
        if isinstance(v, Opaque):
            return self.opaque_method(obj, v, name, args, n)
        if isinstance(v, Struct):
            return self.struct_method(obj, v, name, args, n)
        if isinstance(v, Lambda):
            return self.call_lambda(v, [self.e(a) for a in args])
        if z3.is_expr(v):
            return self.scalar_method(obj, v, name, args, n)
        if isinstance(v, Iter):
            if name == "base":
                return v
        if isinstance(v, StrLit):
            return self.scalar_method(obj, norm(v), name, args, n)
        raise Unsupported("method %s of %r" % (name, v))

    def read_header(self, obj):
        return self.read(obj)

    def scalar_method(self, obj, v, name, args, n):
        if name in ("load", "operator bool") or name.startswith("operator "):
            return v
        if name in ("store",):
            self.write(obj, self.ev(args[0]))
            return None
        if v.sort() == Str:
            if name in ("c_str", "str", "data"):
                return v
            if name == "empty":
                self.str_length(v)
                return v == str_term("")
            if name in ("back", "front"):
                return self.char_at(v, self.str_length(v) - 1 if name == "back" else z3.IntVal(0))
            if name == "at":
                return self.char_at(v, self.ev(args[0]))
            if name == "push_back" or name == "append" and len(args) == 1:
                self.write(obj, self.concat_str(v, norm(self.ev(args[0]))))
                return obj
            if name == "clear":
                self.write(obj, str_term(""))
                return None
            self.assumed.add("std::string::" + name)
            f = {"size": Int, "length": Int}.get(name)
            if f is not None:
                return self.str_length(v)
        if name in ("fetch_add", "fetch_sub"):
            d = self.ev(args[0])
            self.write(obj, v + d if name == "fetch_add" else v - d)
            return v
        if name == "exchange":
            self.write(obj, self.ev(args[0]))
            return v
        raise Unsupported("method %s of scalar" % name)

    def seq_iter(self, obj, name):
        v = self.read_header(obj)
        if len(obj.alts) != 1:
            raise Unsupported("iterator of ambiguous container")
        loc = obj.loc
        if isinstance(v, Mat):
            return Iter(loc, z3.IntVal(0 if name.endswith("begin") else len(v.e)))
        if isinstance(v, Map):
            return self.map_iter(obj, v, name)
        if name in ("begin", "cbegin", "data"):
            return Iter(loc, z3.IntVal(0))
        if name in ("end", "cend"):
            return Iter(loc, v.n)
        if name in ("rbegin", "crbegin"):
            return Iter(loc, z3.simplify(v.n - 1), True)
        if name in ("rend", "crend"):
            return Iter(loc, z3.IntVal(-1), True)
        raise Unsupported(name)

    def map_iter(self, obj, v, name):
        """Iteration: every key exactly once, in an arbitrary order."""
        self.nenum = getattr(self, "nenum", 0) + 1
        ks = [z3.Function("key%d_%d" % (self.nenum, i), Int, s) for i, s in enumerate(v.ksorts)]
        inv = z3.Function("pos%d" % self.nenum, *(v.ksorts + [Int]))
        en = Enum(ks, inv, v.size, v.pres)
        j = z3.Int("j!en%d" % self.nenum)
        kv = [z3.Const("k%d!en%d" % (i, self.nenum), s) for i, s in enumerate(v.ksorts)]
        self.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < v.size), z3.And(
            msel(v.pres, en.key(j)), en.pos(en.key(j)) == j)), patterns=[ks[0](j)]))
        self.assume(z3.ForAll(kv, z3.Implies(msel(v.pres, kv), z3.And(
            en.pos(kv) >= 0, en.pos(kv) < v.size, *[f(en.pos(kv)) == k for f, k in zip(ks, kv)])), patterns=[inv(*kv)]))
        self.enums = getattr(self, "enums", [])
        self.enums.append((obj.loc, en))
        self.assumed.add("iteration over %s visits every key exactly once, in an unspecified order" % v.kind)
        return Iter(obj.loc, z3.IntVal(0), False, v.kproto, en)

    def seq_method(self, obj, v, name, args, n):
        from .engine import Ref
        if name in ("size",):
            return v.n
        if name == "length":
            return v.n
        if name == "empty":
            return v.n == 0
        if name in ("clear",):
            self.write(obj, Seq(v.kind, z3.IntVal(0), tmap(lambda a: default_of(a.sort()), v.el)))
            return None
        if name in ("reserve", "shrink_to_fit"):
            for a in args:
                self.ev(a)
            return None
        if name == "capacity":
            c = self.fresh(Int, "capacity")
            self.assume(c >= v.n)
            return c
        if name in ("push_back", "emplace_back", "push", "emplace"):
            if v.kind not in SEQ:
                raise Unsupported(name + " on " + v.kind)
            x = self.emplace_val(v, args, n, name)
            v = self.read_header(obj)
            self.write(obj, Seq(v.kind, z3.simplify(v.n + 1), sto(v.el, v.n, x)))
            return obj.map(lambda l: l.i(v.n)) if len(obj.alts) == 1 else None
        if name in ("pop_back",):
            self.safe(v.n > 0, "pop_back on non-empty container")
            self.write(obj, Seq(v.kind, z3.simplify(v.n - 1), v.el))
            return None
        if name in ("pop_front", "pop"):
            self.safe(v.n > 0, "pop_front on non-empty container")
            self.write(obj, Seq(v.kind, z3.simplify(v.n - 1), shift(self, v.el, z3.IntVal(1))))
            return None
        if name in ("front",):
            self.safe(v.n > 0, "front of non-empty container")
            return obj.map(lambda l: l.i(z3.IntVal(0)))
        if name == "back":
            self.safe(v.n > 0, "back of non-empty container")
            i = z3.simplify(v.n - 1)
            return obj.map(lambda l: l.i(i))
        if name == "at":
            i = self.ev(args[0])
            self.safe(z3.And(i >= 0, i < v.n), "element index in range")
            return obj.map(lambda l: l.i(i))
        if name in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "crbegin", "crend"):
            return self.seq_iter(obj, name)
        if name == "resize":
            k = self.ev(args[0])
            extra = [a for a in args[1:] if a.kind != "CXXDefaultArgExpr"]
            if extra:
                x = norm(self.ev(extra[0]))
            else:
                x = tmap(lambda a: default_of(a.sort().range()), v.el)
            # elements at and beyond the old size take the fill value
            m = self.fresh_seq_like(v)
            j = self.fresh(Int, "j")
            for a, b, d in zip(leaves(v.el), leaves(m.el), leaves(x)):
                self.assume(z3.ForAll([j], z3.Select(b, j) == z3.If(j < v.n, z3.Select(a, j), d),
                                      patterns=[z3.Select(b, j)]))
            self.write(obj, Seq(v.kind, k, m.el))
            return None
        if name == "assign":
            a = [self.ev(x) for x in args]
            if isinstance(a[0], Iter):
                c = self.nav(self.root_val(self.st, a[0].loc.root), a[0].loc.path)
                if z3.is_int_value(a[0].pos) and a[0].pos.as_long() == 0:
                    self.write(obj, Seq(v.kind, a[1].pos, c.el))
                else:
                    self.write(obj, Seq(v.kind, z3.simplify(a[1].pos - a[0].pos), shift(self, c.el, a[0].pos)))
            else:
                self.write(obj, Seq(v.kind, a[0], tmap(lambda l: z3.K(Int, l), norm(a[1]))))
            return None
        if name == "erase":
            a = self.ev(args[0])
            b = self.ev(args[1]) if len(args) > 1 else self.iter_add(a, 1)
            if not isinstance(a, Iter) or a.loc != obj.loc:
                raise Unsupported("erase")
            self.safe(z3.And(a.pos >= 0, a.pos <= b.pos, b.pos <= v.n), "erase range inside container")
            cnt = z3.simplify(b.pos - a.pos)
            el = gap(self, v.el, a.pos, cnt)
            self.write(obj, Seq(v.kind, z3.simplify(v.n - cnt), el))
            return Iter(a.loc, a.pos)
        if name == "insert":
            return self.seq_insert(obj, v, args, n)
        if name == "swap":
            o = self.lv(args[0])
            w = self.read(o)
            self.write(obj, w)
            self.write(o, v)
            return None
        if name == "operator=":
            self.write(obj, self.ev(args[0]))
            return obj
        raise Unsupported("container method " + name)

    def seq_insert(self, obj, v, args, n):
        a = self.ev(args[0])
        if len(args) == 3:
            b, e = self.ev(args[1]), self.ev(args[2])
            if isinstance(b, Iter) and isinstance(e, Iter) and z3.simplify(a.pos - v.n).eq(z3.IntVal(0)):
                c = self.nav(self.root_val(self.st, b.loc.root), b.loc.path)
                m = concat(self, v, Seq("x", z3.simplify(e.pos - b.pos),
                                        c.el if z3.is_int_value(b.pos) and b.pos.as_long() == 0
                                        else shift(self, c.el, b.pos)))
                self.write(obj, m)
                return Iter(obj.loc, v.n)
        raise Unsupported("container insert")

    def emplace_val(self, v, args, n, name):
        if self.types.task_types:
            x = self.task_element(v.el, args)
            if x is not None:
                return x
        if len(args) == 1:
            x = norm(self.ev(args[0]))
            if same_elem(v.el, x):
                return x
        proto = tmap(lambda a: a, v.el)
        if isinstance(v.el, Struct):
            if v.el.cls == "pair" and len(args) == 2:
                return Struct("pair", {"first": norm(self.ev(args[0])), "second": norm(self.ev(args[1]))})
            rec = self.index.record(v.el.cls)
            if rec is not None:
                return self.construct(rec, args, None, n)
        if isinstance(v.el, Mat):
            return self.eigen_build(v.el.r, v.el.c, v.el.sc, [self.ev(a) for a in args])
        raise Unsupported("emplace_back arguments")

    def fresh_seq_like(self, v):
        return Seq(v.kind, self.fresh(Int, "len"), tmap(lambda a: self.fresh(a.sort(), "arr"), v.el))

    def ptr_method(self, obj, v, name, args, n):
        if name in ("operator bool",):
            return v.t != 0
        if name == "get":
            return v
        if name == "reset":
            if not args:
                self.write(obj, Ptr(z3.IntVal(0), v.cls))
            else:
                x = self.ev(args[0])
                self.write(obj, Ptr(x.t, x.cls if x.cls not in ("null", "?") else v.cls))
            return None
        if name == "operator->":
            return v
        if name in ("use_count",):
            return self.fresh(Int, "use_count")
        if name == "unique":
            return self.fresh(Bool, "unique")
        if name == "operator=":
            self.write(obj, self.ev(args[0]))
            return obj
        if name == "lock":
            return v
        raise Unsupported("pointer method " + name)

    def map_key(self, m, k):
        k = norm(k)
        ls = leaves(k)
        if len(ls) != len(m.ksorts):
            raise Unsupported("map key shape")
        return ls

    def map_method(self, obj, m, name, args, n):
        from .engine import Ref
        if name == "size":
            return m.size
        if name == "empty":
            return m.size == 0
        if name == "clear":
            self.write(obj, Map(m.kind, m.kproto, default_of(m.pres.sort()),
                                tmap(lambda a: default_of(a.sort()), m.el), z3.IntVal(0)))
            return None
        if name == "count":
            ks = self.map_key(m, self.ev(args[0]))
            return z3.If(msel(m.pres, ks), z3.IntVal(1), z3.IntVal(0))
        if name == "at":
            ks = self.map_key(m, self.ev(args[0]))
            self.safe(msel(m.pres, ks), "map::at of a present key")
            return obj.map(lambda l: l.sub(("m", tuple(ks))))
        if name in ("emplace", "insert", "try_emplace"):
            a = [norm(self.ev(x)) for x in args]
            if len(a) == 1 and isinstance(a[0], Struct) and a[0].cls == "pair" and m.kind in MAPS:
                a = [a[0].f["first"], a[0].f["second"]]
            ks = self.map_key(m, a[0])
            had = msel(m.pres, ks)
            if len(a) > 1:
                el = rebuild(m.el, [msto(x, ks, z3.If(had, msel(x, ks), y))
                                    for x, y in zip(leaves(m.el), leaves(self.fit_map_val(m, a[1])))])
            else:
                el = m.el
            self.write(obj, Map(m.kind, m.kproto, msto(m.pres, ks, z3.BoolVal(True)), el,
                                m.size + z3.If(had, z3.IntVal(0), z3.IntVal(1))))
            return Struct("pair", {"first": Opaque("iterator"), "second": z3.Not(had)})
        if name == "find":
            k = norm(self.ev(args[0]))
            ks = self.map_key(m, k)
            return Iter(obj.loc, z3.If(msel(m.pres, ks), z3.IntVal(0), z3.IntVal(-1)), False, k)
        if name in ("end", "cend"):
            return Iter(obj.loc, z3.IntVal(-1), False, m.kproto)
        if name == "erase":
            k = self.ev(args[0])
            if isinstance(k, Iter):
                k = k.key
            ks = self.map_key(m, k)
            had = msel(m.pres, ks)
            self.write(obj, Map(m.kind, m.kproto, msto(m.pres, ks, z3.BoolVal(False)), m.el,
                                m.size - z3.If(had, z3.IntVal(1), z3.IntVal(0))))
            return z3.If(had, z3.IntVal(1), z3.IntVal(0))
        if name in ("begin", "cbegin"):
            return self.map_iter(obj, m, name)
        if name == "reserve":
            return None
        raise Unsupported("map method " + name)

    def fit_map_val(self, m, v):
        if len(leaves(v)) != len(leaves(m.el)):
            raise Unsupported("map value shape")
        return v

    def map_index(self, obj, key):
        m = self.read(obj)
        ks = self.map_key(m, key)
        had = msel(m.pres, ks)
        if self.map_known and self.valid(had):
            return obj.map(lambda l: l.sub(("m", tuple(ks))))
        zero = [default_of(leaf_range(a.sort(), len(ks))) for a in leaves(m.el)]
        rec = self.index.record(m.el.cls) if isinstance(m.el, Struct) and m.el.cls not in ("pair", "tuple") else None
        if rec is not None:
            z = leaves(norm(self.construct(rec, [], "void ()")))
            if len(z) != len(zero):
                raise Unsupported("default map value of " + m.el.cls)
            zero = z
            m = self.read(obj)
        el = rebuild(m.el, [msto(a, ks, z3.If(had, msel(a, ks), z)) for a, z in zip(leaves(m.el), zero)])
        self.write(obj, Map(m.kind, m.kproto, msto(m.pres, ks, z3.BoolVal(True)), el,
                            m.size + z3.If(had, z3.IntVal(0), z3.IntVal(1))))
        return obj.map(lambda l: l.sub(("m", tuple(ks))))

    def opaque_method(self, obj, v, name, args, n):
        if self.locks is not None and v.tag.startswith("std::mutex"):
            return self.mutex_method(obj, name)
        if self.types.task_types and v.tag.startswith("std::condition_variable"):
            return self.condition_method(obj, name, args)
        for a in args:
            if a.kind == "CXXDefaultArgExpr":
                continue
            self.e(a)
        self.assumed.add("%s::%s (opaque)" % (template(v.tag)[0][:60], name))
        return self.opaque_result(n)

    def opaque_result(self, n):
        t = strip(n.dtype)
        try:
            if t in ("void", ""):
                return None
            return self.sym(t, "opq")
        except Unsupported:
            return Opaque(t)

    def struct_method(self, obj, v, name, args, n):
        if v.cls in TASKS:
            return self.task_method(obj, v, name, args, n)
        if v.cls == "optional":
            if name in ("is_initialized", "has_value", "operator bool"):
                return v.f["has"]
            if name in ("value", "get", "operator*", "operator->"):
                self.safe(v.f["has"], "value of engaged optional")
                return obj.map(lambda l: l.f("val"))
            if name == "reset":
                self.write(obj, v.set("has", z3.BoolVal(False)))
                return None
        if v.cls == "LocalCartesian":
            return self.geo_method(obj, v, name, args, n)
        if v.cls in XML:
            return self.xml_method(obj, v, name, args, n)
        if v.cls == "file":
            return self.file_method(obj, v, name, [a for a in args if a.kind != "CXXDefaultArgExpr"], n)
        if v.cls == "stream":
            return self.stream_method(obj, v, name, args, n)
        if v.cls == "PointCloud":
            if name in ("size", "empty", "push_back", "clear", "reserve", "at", "back", "front", "begin", "end",
                        "resize"):
                r = self.seq_method(obj.map(lambda l: l.f("points")), v.f["points"], name, args, n)
                if name in ("push_back", "resize", "clear"):
                    nv = self.read(obj)
                    self.write(obj, nv.set("width", nv.f["points"].n).set(
                        "height", z3.IntVal(0 if name == "clear" else 1)))
                return r
        if v.cls == "Quaternion":
            return self.quat_method(obj, v, name, args, n)
        if name == "operator=":
            self.write(obj, self.ev(args[0]))
            return obj
        if v.cls == "lock":
            return self.lock_method(obj, v, name, args, n)
        if v.cls.startswith("eig"):
            return self.eigobj_method(obj, v, name, args, n)
        b = getattr(self, "base_container", {}).get(v.cls)
        if b:
            return self.lib_method(obj.map(lambda l: l.f(b)), name, args, n)
        raise Unsupported("method %s of %s" % (name, v.cls))

    # ------------------------------------------------------------ operators
    def lib_operator(self, name, args, n):
        op = name[len("operator"):]
        if op == "<<" or op == ">>":
            a = self.e(args[0])
            v = self.val(a)
            if isinstance(v, Mat):
                return self.comma_init(a, self.ev(args[1]))
            # streams: no effect on program state
            for x in args[1:]:
                try:
                    self.e(x)
                except Unsupported:
                    pass
            return a
        if op == ",":
            a = self.e(args[0])
            v = self.val(a)
            if isinstance(v, Struct) and v.cls == "eigcomma":
                return self.comma_next(a, self.ev(args[1]))
            raise Unsupported("comma operator")
        if op == "&" and strip(n.dtype) == "void":
            self.e(args[0])
            self.e(args[1])
            return None
        x = self.e(args[0])
        v = self.val(x) if not (op == "=") else (self.peek(x) if True else None)
        if op == "->":
            if isinstance(v, (Ptr, Iter)):
                return v
            if isinstance(v, Struct) and v.cls == "optional":
                return self.addr_of(self.struct_method(self.ref(x), v, "value", [], n))
            raise Unsupported("operator-> of %r" % (v,))
        if op == "*" and len(args) == 1:
            if isinstance(v, Struct) and v.cls == "optional":
                return self.struct_method(self.ref(x), v, "value", [], n)
            return self.deref(v)
        if op == "=":
            r = self.ref(x)
            y = self.ev(args[1])
            return self.assign(r, v, y, n)
        if op == "()":
            if isinstance(v, Lambda):
                return self.call_lambda(v, [self.e(a) for a in args[1:]])
            if isinstance(v, Mat):
                return self.mat_coeff(self.ref(x), v, [self.ev(a) for a in args[1:]])
            if isinstance(v, Seq):
                return self.dyn_coeff(self.ref(x), v, [self.ev(a) for a in args[1:]])
            if isinstance(v, Opaque):
                return self.opaque_call(v, args, n)
            if isinstance(v, Struct) and v.cls in TASKS:
                return self.task_call(self.ref(x), v)
            raise Unsupported("call operator of %r" % (v,))
        if op == "[]":
            if isinstance(v, Map):
                return self.map_index(self.ref(x), self.ev(args[1]))
            i = self.ev(args[1])
            if isinstance(v, Seq):
                self.safe(z3.And(i >= 0, i < v.n), "element index in range")
                return self.ref(x).map(lambda l: l.i(i))
            if isinstance(v, Mat):
                return self.mat_coeff(self.ref(x), v, [i])
            if isinstance(v, Iter):
                return self.deref_iter(self.iter_add(v, i))
            if z3.is_expr(v) and v.sort() == Str:
                return self.char_at(v, i)
            if isinstance(v, Struct) and v.cls == "PointCloud":
                self.safe(z3.And(i >= 0, i < v.f["points"].n), "element index in range")
                return self.ref(x).map(lambda l: l.f("points").i(i))
            b = getattr(self, "base_container", {}).get(v.cls) if isinstance(v, Struct) else None
            if b:
                return self.ref(x).map(lambda l: l.f(b).i(i))
            raise Unsupported("subscript of %r" % (v,))
        if op in ("++", "--"):
            r = self.ref(x)
            d = 1 if op == "++" else -1
            if isinstance(v, Iter):
                nv = self.iter_add(v, -d if v.rev else d)
                if v.key is not None:
                    if v.en is None:
                        raise Unsupported("map iterator increment")
            elif z3.is_expr(v) and v.sort() == Int:
                nv = v + d
            else:
                raise Unsupported("increment of %r" % (v,))
            self.write(r, nv)
            return v if len(args) == 2 else r
        if len(args) == 2 and op in ("+=", "-=", "*=", "/=") :
            y = self.ev(args[1])
            if isinstance(v, Iter):
                self.write(self.ref(x), self.iter_add(v, y if op == "+=" else -y))
                return x
            if isinstance(v, Mat) or isinstance(y, Mat) or (isinstance(v, Struct) and v.cls == "Quaternion"):
                r = self.ref(x)
                self.write(r, self.mat_op(op[0], v, y, n))
                return r
            if z3.is_expr(v) and v.sort() == Str:
                r = self.ref(x)
                self.write(r, self.concat_str(v, norm(y)))
                return r
            if z3.is_expr(v):
                r = self.ref(x)
                self.write(r, self.binop(op[0], v, y, n, ""))
                return r
            raise Unsupported("operator %s of %r" % (op, v))
        if len(args) == 1 and op == "!":
            if isinstance(v, Struct) and v.cls == "optional":
                return z3.Not(v.f["has"])
            if isinstance(v, Ptr):
                return v.t == 0
        if len(args) == 1 and op == "-":
            if isinstance(v, Mat):
                return Mat(v.r, v.c, [self.neg_s(t) for t in v.e], v.sc)
            raise Unsupported("unary minus of %r" % (v,))
        if len(args) == 2:
            y = self.ev(args[1])
            return self.lib_binop(op, v, y, n, args)
        raise Unsupported("operator " + name)

    def peek(self, x):
        """Value for shape only (no read logged)."""
        from .engine import Ref
        if isinstance(x, Ref):
            rl, self.rlog = self.rlog, None
            d = self.dry
            self.dry += 1
            try:
                v = self.read(x)
            finally:
                self.rlog = rl
                self.dry = d
            return v
        return x

    def opaque_call(self, v, args, n):
        for a in args[1:]:
            self.e(a)
        self.assumed.add("call of opaque " + template(v.tag)[0])
        return self.opaque_result(n)

    def fact(self, f):
        """Holds of the terms themselves, on every path."""
        if not any(f.eq(a) for a in self.axioms):
            self.axioms.append(f)

    def str_length(self, v):
        r = z3.Function("strlen", Str, Int)(v)
        self.fact(z3.And(r >= 0, (r == 0) == (v == str_term(""))))
        return r

    def char_at(self, v, i):
        """Character of a string (of its text up to the closing 0)."""
        f = z3.Function("char_at", Str, Int, Int)
        self.str_length(v)
        self.fact((f(v, z3.IntVal(0)) == 0) == (v == str_term("")))
        return f(v, i)

    def concat_str(self, a, b):
        if not (z3.is_expr(a) and z3.is_expr(b)):
            return self.fresh(Str, "str")
        if b.sort() == Int and z3.is_int_value(b) and 0 < b.as_long() < 128:
            b = str_term(chr(b.as_long()))
        if a.sort() != Str or b.sort() != Str:
            return self.fresh(Str, "str")
        return z3.Function("strcat", Str, Str, Str)(a, b)

    def assign(self, r, v, y, n):
        if isinstance(v, Struct) and v.cls == "optional" and not (isinstance(y, Struct) and y.cls == "optional"):
            self.write(r, Struct("optional", {"has": z3.BoolVal(not isinstance(y, Opaque)),
                                              "val": y if not isinstance(y, Opaque) else v.f["val"]}))
            return r
        if isinstance(v, Ptr) and isinstance(y, Ptr):
            y = Ptr(y.t, y.cls if y.cls not in ("null", "?") else v.cls)
        if isinstance(v, Seq) and isinstance(y, Seq):
            y = Seq(v.kind, y.n, y.el)
        if isinstance(v, Mat) and isinstance(y, Mat):
            y = Mat(y.r, y.c, y.e, v.sc)
        if isinstance(v, Seq) and v.kind == "dynmat" and isinstance(y, Mat):
            raise Unsupported("dynamic matrix assignment")
        self.write(r, y)
        return r

    def lib_binop(self, op, v, y, n, args):
        cmp = op in ("==", "!=", "<", ">", "<=", ">=")
        if isinstance(v, Iter) or isinstance(y, Iter):
            if isinstance(v, Iter) and v.key is not None and op in ("==", "!="):
                en = v.en or y.en
                c = v.pos == y.pos if en is None else (v.pos if v.en else en.size) == (y.pos if y.en else en.size)
                return c if op == "==" else z3.Not(c)
            return self.iter_op(op, v, y, n)
        if isinstance(v, Ptr) or isinstance(y, Ptr):
            if op in ("==", "!=") and isinstance(v, Ptr) and isinstance(y, Ptr):
                c = v.t == y.t
                return c if op == "==" else z3.Not(c)
        if isinstance(v, Opaque) or isinstance(y, Opaque):
            return self.fresh(Bool, "opq_cmp") if cmp else Opaque("op")
        v, y = norm(v), norm(y)
        if isinstance(v, (Mat,)) or isinstance(y, (Mat,)) or \
                (isinstance(v, Struct) and v.cls in ("Quaternion", "eigaa")) or \
                (isinstance(v, Struct) and v.cls.startswith("eig")) or \
                (isinstance(v, Seq) and v.kind in ("dynmat", "dynvec")) or (isinstance(y, Seq) and y.kind in ("dynmat", "dynvec")):
            return self.mat_op(op, v, y, n)
        if z3.is_expr(v) and v.sort() == Str or z3.is_expr(y) and y.sort() == Str:
            if op in ("==", "!="):
                return v == y if op == "==" else v != y
            if op == "+":
                return self.concat_str(v, y)
        if isinstance(v, Struct) and isinstance(y, Struct) and v.cls in ("tuple", "pair"):
            return self.tuple_cmp(op, v, y)
        if isinstance(v, Seq) and isinstance(y, Seq) and op in ("==", "!="):
            k = self.fresh(Int, "k")
            c = z3.And(v.n == y.n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.n), eq(sel(v.el, k), sel(y.el, k)))))
            return c if op == "==" else z3.Not(c)
        if z3.is_expr(v) and z3.is_expr(y):
            return self.binop(op, v, y, n, args[0].dtype)
        raise Unsupported("operator %s of %r, %r" % (op, v, y))

    def tuple_cmp(self, op, a, b):
        xs, ys = list(a.f.values()), list(b.f.values())

        def lt(i):
            if i == len(xs):
                return z3.BoolVal(False)
            x, y = xs[i], ys[i]
            l = x < y if x.sort() == Int else self.num.lt(x, y)
            e = x == y if x.sort() in (Int, Bool) else self.num.feq(x, y)
            return z3.Or(l, z3.And(e, lt(i + 1)))

        def eqq():
            return z3.And(*[x == y if x.sort() in (Int, Bool, Str) else self.num.feq(x, y) for x, y in zip(xs, ys)])
        if op == "==":
            return eqq()
        if op == "!=":
            return z3.Not(eqq())
        if op == "<":
            return lt(0)
        if op == ">=":
            return z3.Not(lt(0))
        xs, ys = ys, xs
        if op == ">":
            return lt(0)
        if op == "<=":
            return z3.Not(lt(0))
        raise Unsupported("tuple " + op)

    # ------------------------------------------------------------ algorithms
    def algorithm(self, name, args, n):
        if name in ("lower_bound", "upper_bound") and len(args) == 4:
            return self.bound_search(name, args, n)
        raise Unsupported("algorithm std::" + name)

    def bound_search(self, name, args, n):
        """lower_bound, upper_bound with a lambda: the range has to be partitioned (obligation); the
        result is the border."""
        a, b = self.ev(args[0]), self.ev(args[1])
        x = norm(self.val(self.e(args[2])))
        less = self.ev(args[3])
        if not (isinstance(a, Iter) and isinstance(b, Iter) and isinstance(less, Lambda)) or a.key is not None or \
                a.rev or b.rev or a.loc != b.loc:
            raise Unsupported("algorithm std::" + name)
        self.assumed.add("std::" + name)
        s = self.read_loc(a.loc)

        def before(k):
            e = norm(sel(s.el, k))
            if name == "lower_bound":
                return self.val(self.call_lambda(less, [e, x]))
            return z3.Not(self.val(self.call_lambda(less, [x, e])))
        j, k, r = self.fresh(Int, "lo"), self.fresh(Int, "hi"), self.fresh(Int, "border")
        self.oblige("safety: %s: the range is in order in %s" % (name, self.where()), z3.Implies(
            z3.And(a.pos <= j, j < k, k < b.pos, before(k)), before(j)), kind="safety")
        self.st.pc.append(z3.And(a.pos <= r, r <= b.pos))
        self.st.pc.append(z3.Implies(r < b.pos, z3.Not(before(r))))
        self.st.pc.append(z3.Implies(r > a.pos, before(r - 1)))
        return Iter(a.loc, r)


def leaf_range(s, depth):
    for _ in range(depth):
        s = s.range()
    return s


def same_elem(el, x):
    la, lx = leaves(el), leaves(x)
    return len(la) == len(lx) and all(a.sort().range() == b.sort() for a, b in zip(la, lx)) and \
        (z3.is_expr(x) or isinstance(x, type(el)))


def shift(ex, el, k):
    """Array tree b with b[j] = a[j + k] for j >= 0."""
    out = []
    for a in leaves(el):
        b = ex.fresh(a.sort(), "shift")
        j = ex.fresh(Int, "j")
        ex.axioms.append(z3.ForAll([j], z3.Implies(j >= 0, z3.Select(b, j) == z3.Select(a, j + k)),
                                   patterns=[z3.Select(b, j)]))
        out.append(b)
    return rebuild(el, out)


def gap(ex, el, pos, cnt):
    """Remove cnt elements at pos."""
    out = []
    for a in leaves(el):
        b = ex.fresh(a.sort(), "erase")
        j = ex.fresh(Int, "j")
        ex.axioms.append(z3.ForAll([j], z3.Select(b, j) == z3.If(j < pos, z3.Select(a, j), z3.Select(a, j + cnt)),
                                   patterns=[z3.Select(b, j)]))
        out.append(b)
    return rebuild(el, out)


def concat(ex, v, w):
    out = []
    for a, c in zip(leaves(v.el), leaves(w.el)):
        b = ex.fresh(a.sort(), "concat")
        j = ex.fresh(Int, "j")
        ex.axioms.append(z3.ForAll([j], z3.Select(b, j) == z3.If(j < v.n, z3.Select(a, j), z3.Select(c, j - v.n)),
                                   patterns=[z3.Select(b, j)]))
        out.append(b)
    return Seq(v.kind, z3.simplify(v.n + w.n), rebuild(v.el, out))
