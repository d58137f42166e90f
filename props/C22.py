"""C22: identifiers are totally ordered, component by component."""
from vf.driver import Property
from vf.spec import *

P = Property("C22")


def less(a, b):
    """Lexicographic order of component lists."""
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        r = z3.Or(x < y, z3.And(x == y, r))
    return r


def ids(cls, fields, file):
    @P.proof(cls + " comparisons", (file,))
    def _(c):
        ex = c.exec()
        T = "static_map::" + cls
        (a, av), (b, bv), (d, dv) = obj(ex, T, "a"), obj(ex, T, "b"), obj(ex, T, "c")
        comp = lambda v: [v.f[k] for k in fields]
        op = lambda o, x, y: ex.num.to_bool(ex.val(call(ex, cls + "::operator" + o, x, [y])))
        lt, gt, eq_, ne = op("<", a, b), op("<", b, a), op("==", a, b), op("!=", a, b)
        no_abort(ex, "comparing")
        reach(ex, "comparing")
        same = z3.And(*[x == y for x, y in zip(comp(av), comp(bv))])
        post(ex, "equal exactly when every component is", eq_ == same)
        post(ex, "unequal is the negation of equal", ne == z3.Not(same))
        post(ex, "less is lexicographic over " + ", ".join(fields), lt == less(comp(av), comp(bv)))
        post(ex, "exactly one of less, equal, greater",
             z3.And(z3.Or(lt, eq_, gt), z3.Not(z3.And(lt, gt)), z3.Not(z3.And(lt, eq_)), z3.Not(z3.And(gt, eq_))))
        bc, ac = op("<", b, d), op("<", a, d)
        post(ex, "less is transitive", z3.Implies(z3.And(lt, bc), ac))
        post(ex, "equality is symmetric", eq_ == op("==", b, a))
        post(ex, "operands are unchanged", z3.And(eq(state_val(ex, a), av), eq(state_val(ex, b), bv)))


ids("FrameId", ("trajectory_index", "submap_index", "frame_index"), "builder/frame.cc")
ids("SubmapId", ("trajectory_index", "submap_index"), "builder/submap.cc")

P.harness("C22.cc", ["builder/frame.cc", "builder/submap.cc"],
          libs=["-Wl,--unresolved-symbols=ignore-all", "-lglog"], time=2)
