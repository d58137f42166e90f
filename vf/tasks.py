"""Threads, callables and futures: assumed contracts of the standard library.

Active when types.task_types is set.  A std::function is an identity (0: empty);
the callable behind an identity is remembered (self.callables).  A thread is its
state (0 none, 1 running, 2 joined, 3 detached).  A packaged task counts its
runs and knows its future.  Hooks of a property: on_call(id), on_spawn(lambda),
on_join(), on_notify(all), on_wait(pred or None)."""
import z3
from .ast import Unsupported
from .values import *

TASKS = ("function", "thread", "packaged_task", "future")


def task_shape(sn, leaf, hint):
    if sn == "thread":
        return Struct("thread", {"state": leaf(Int, hint + ".state", None)})
    if sn == "packaged_task":
        return Struct("packaged_task", {k: leaf(Int, hint + "." + k, None) for k in ("work", "runs", "future")})
    return Struct(sn, {"id": leaf(Int, hint + ".id", None)})


class TaskMixin:
    on_call = on_spawn = on_join = on_notify = on_wait = None

    def identity(self, what):
        """A new identity for a callable."""
        self.callables = getattr(self, "callables", [])
        t = self.fresh(Int, "callable")
        self.st.pc.append(t > 0)
        self.callables.append((t, what))
        return t

    def task_construct(self, sn, real, n):
        vs = [norm(self.ev(a)) for a in real]
        if sn == "function":
            if not vs or isinstance(vs[0], Ptr) or isinstance(vs[0], Opaque):
                return Struct("function", {"id": z3.IntVal(0)})
            return self.to_function(vs[0])
        if sn == "thread":
            if not vs:
                return Struct("thread", {"state": z3.IntVal(0)})
            return self.to_thread(vs[0])
        if len(vs) == 1 and isinstance(vs[0], Struct) and vs[0].cls == sn:
            return vs[0]
        if sn == "packaged_task" and len(vs) == 1:
            return self.to_packaged(vs[0])
        if sn == "future" and not vs:
            return Struct("future", {"id": z3.IntVal(0)})
        raise Unsupported("construction of std::" + sn)

    def to_function(self, v):
        if isinstance(v, Struct) and v.cls == "function":
            return v
        if isinstance(v, Lambda) or (isinstance(v, Struct) and v.cls == "bound"):
            return Struct("function", {"id": self.identity(v)})
        raise Unsupported("function from %r" % (v,))

    def to_thread(self, v):
        if isinstance(v, Struct) and v.cls == "thread":
            return v
        if isinstance(v, Lambda):
            if self.on_spawn is None:
                raise Unsupported("thread")
            self.on_spawn(v)
            return Struct("thread", {"state": z3.IntVal(1)})
        raise Unsupported("thread of %r" % (v,))

    def to_packaged(self, v):
        self.assumed.add("std::packaged_task: a call runs the callable once and puts the outcome in the one future")
        if isinstance(v, Struct) and v.cls == "bound":
            w = v.f["id"]
        elif isinstance(v, Struct) and v.cls == "function":
            w = v.f["id"]
        elif isinstance(v, Lambda):
            w = self.identity(v)
        else:
            raise Unsupported("packaged task of %r" % (v,))
        f = self.fresh(Int, "future")
        self.st.pc.append(f > 0)
        return Struct("packaged_task", {"work": w, "runs": z3.IntVal(0), "future": f})

    def f_bind(self, args, n):
        """A callable that calls the first argument with the others."""
        vs = [norm(self.ev(a)) for a in args]
        if not (isinstance(vs[0], Struct) and vs[0].cls == "function"):
            raise Unsupported("bind of %r" % (vs[0],))
        self.assumed.add("std::bind: the result calls the callable with the given arguments")
        b = Struct("bound", {"id": self.identity(("bind", vs))})
        return b

    def task_element(self, el, args):
        """Element of a container of callables or threads made from one argument."""
        if isinstance(el, Struct) and el.cls in ("function", "thread") and len(args) == 1:
            x = norm(self.ev(args[0]))
            return self.to_function(x) if el.cls == "function" else self.to_thread(x)
        return None

    def task_call(self, obj, v):
        if v.cls == "function":
            self.safe(v.f["id"] != 0, "call of a function that is not empty")
            if self.on_call is None:
                raise Unsupported("call of a function")
            self.on_call(v.f["id"])
            return None
        if v.cls == "packaged_task":
            self.write(obj, v.set("runs", v.f["runs"] + 1))
            return None
        raise Unsupported("call of " + v.cls)

    def task_method(self, obj, v, name, args, n):
        if name == "operator=":
            x = norm(self.ev(args[0]))
            self.write(obj, self.to_function(x) if v.cls == "function" else x)
            return obj
        if name == "swap":
            o = self.lv(args[0])
            w = self.read(o)
            self.write(obj, w)
            self.write(o, v)
            return None
        if v.cls == "function" and name == "operator bool":
            return v.f["id"] != 0
        if v.cls == "thread":
            if name == "joinable":
                return v.f["state"] == 1
            if name in ("join", "detach"):
                self.safe(v.f["state"] == 1, name + " of a running thread")
                if name == "join" and self.on_join is not None:
                    self.on_join()
                self.write(obj, v.set("state", z3.IntVal(2 if name == "join" else 3)))
                return None
        if v.cls == "packaged_task" and name == "get_future":
            return Struct("future", {"id": v.f["future"]})
        if v.cls == "packaged_task" and name == "operator()":
            return self.task_call(obj, v)
        raise Unsupported("%s::%s" % (v.cls, name))

    def condition_method(self, obj, name, args):
        self.assumed.add("std::condition_variable: wait releases and takes the lock again; a waiting thread is woken by a notification")
        if name in ("notify_one", "notify_all"):
            if self.on_notify is not None:
                self.on_notify(name == "notify_all")
            return None
        if name != "wait":
            raise Unsupported("condition_variable::" + name)
        lk = self.lv(args[0])
        key = self.lock_ids[self.read(lk).f["id"].as_long()]
        pred = self.ev(args[1]) if len(args) > 1 else None
        if pred is None and self.on_wait is not None:
            self.on_wait(None)
        self.leave(key)
        self.acquire(key)
        if pred is not None:
            p = norm(self.val(self.call_lambda(pred, [])))
            if self.on_wait is not None:
                self.on_wait(p)
            self.st.pc.append(p)
        return None
