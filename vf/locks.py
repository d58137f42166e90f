"""Locks and threads: ghost ownership of every mutex, hooks for the invariant a
lock protects, and the fields accessed."""
import z3
from .ast import Unsupported
from .values import *


class LockMixin:
    """Active when self.locks is a dict (mutex key -> Loc); without it locks have
    no effect (sequential meaning).

    on_acquire(key) / on_release(key): the lock invariant (assumed with
    arbitrary interference / to be shown).  accesses: (field, write, held keys,
    path condition, function) of every access below self.guarded, the root of
    the object whose fields are shared."""
    locks = None
    on_acquire = on_release = None
    guarded = None

    def lock_key(self, ref):
        from .engine import Ref, Loc
        if not isinstance(ref, Ref) or len(ref.alts) != 1:
            raise Unsupported("lock of an unknown mutex")
        loc = ref.alts[0][1]
        out = [loc.root]
        for k, x in loc.path:
            if k == "i":
                x = z3.simplify(x)
                if not z3.is_int_value(x):
                    raise Unsupported("lock of an unknown mutex")
                x = x.as_long()
            out.append(str(x))
        key = "lock:" + ".".join(out)
        if key not in self.locks:
            self.locks[key] = Loc(key)
        return key

    def held(self, key):
        v = self.st.roots.get(key)
        return v if v is not None else z3.BoolVal(False)

    def balanced(self, a, b):
        """Ownership at the end of a loop body is that at its start."""
        if self.locks:
            s = self.st
            for k in self.locks:
                x, y = a.roots.get(k, z3.BoolVal(False)), b.roots.get(k, z3.BoolVal(False))
                if not x.eq(y):
                    self.st = b
                    self.oblige("lock: an iteration of the loop in %s keeps ownership" % self.where(), x == y, kind="lock")
            self.st = s

    def acquire(self, key):
        if not self.dry:
            self.oblige("lock: not taken twice by one thread in " + self.where(), z3.Not(self.held(key)), kind="lock")
        self.st.roots[key] = z3.BoolVal(True)
        if self.on_acquire is not None:
            self.on_acquire(key)

    def leave(self, key):
        if not self.dry:
            self.oblige("lock: released only when held in " + self.where(), self.held(key), kind="lock")
        if self.on_release is not None:
            self.on_release(key)
        self.st.roots[key] = z3.BoolVal(False)

    def lock_construct(self, sn, real, n):
        if self.locks is None:
            for a in real:
                self.e(a)
            return Struct("lock", {})
        if sn in ("shared_lock", "upgrade_lock", "upgrade_to_unique_lock") or len(real) != 1:
            raise Unsupported("lock " + sn)
        key = self.lock_key(self.lv(real[0]))
        self.acquire(key)
        self.lock_ids = getattr(self, "lock_ids", [])
        self.lock_ids.append(key)
        return Struct("lock", {"id": z3.IntVal(len(self.lock_ids) - 1), "owns": z3.BoolVal(True)})

    def unlock(self, v, loc=None):
        """End of the scope of a lock object."""
        if self.locks is None or "id" not in v.f:
            return
        if loc is not None:
            v = self.nav(self.root_val(self.st, loc.root), loc.path)
        owns = z3.simplify(v.f["owns"])
        if z3.is_true(owns):
            self.leave(self.lock_ids[v.f["id"].as_long()])
        elif not z3.is_false(owns):
            raise Unsupported("lock held on some paths only")

    def lock_method(self, obj, v, name, args, n):
        if self.locks is None:
            return None
        key = self.lock_ids[v.f["id"].as_long()]
        if name == "unlock":
            self.leave(key)
            self.write(obj, v.set("owns", z3.BoolVal(False)))
            return None
        if name == "lock":
            self.acquire(key)
            self.write(obj, v.set("owns", z3.BoolVal(True)))
            return None
        if name in ("owns_lock", "operator bool"):
            return v.f["owns"]
        raise Unsupported("lock method " + name)

    def mutex_method(self, obj, name):
        key = self.lock_key(obj)
        if name == "lock":
            self.acquire(key)
        elif name == "unlock":
            self.leave(key)
        else:
            raise Unsupported("mutex method " + name)

    def check_guard(self, loc, write):
        if loc.root == self.guarded and loc.path and loc.path[0][0] == "f":
            self.accesses.append((loc.path[0][1], write, {k: self.held(k) for k in self.locks}, list(self.st.pc), self.where()))
