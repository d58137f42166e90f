"""Lookup of functions, records and enums over the extracted units."""
from .ast import FUNCS, TU, Unsupported
from .types import base_name, strip, template


class Index:
    def __init__(self, tus):
        self.tus = list(tus)
        self.by_mangled = {}
        self.defs = {}          # (tu, id) -> def
        self.methods = {}       # (class simple name, method name) -> [def]
        self.enum_consts = {}
        self.unnamed = {}       # type without a name -> definition
        for tu in self.tus:
            for f in tu.funcs:
                m = f.get("mangledName")
                if m and m not in self.by_mangled:
                    self.by_mangled[m] = f
                self.defs[(tu, f.id)] = f
                p = f.get("previousDecl")
                while p:
                    self.defs.setdefault((tu, p), f)
                    pn = tu.by_id.get(p)
                    p = pn.get("previousDecl") if pn is not None else None
                q = tu.qual.get(f.id, f.name).split("::")
                if len(q) >= 2:
                    self.methods.setdefault((q[-2], f.name), []).append(f)

    def qual(self, f):
        return f.tu.qual.get(f.id, f.name)

    def resolve(self, tu, did):
        """Definition node of a declaration id, or None."""
        if did is None:
            return None
        d = self.defs.get((tu, did))
        if d is not None:
            return d
        n = tu.by_id.get(did)
        if n is None:
            return None
        if n.kind in FUNCS:
            m = n.get("mangledName")
            if m in self.by_mangled:
                return self.by_mangled[m]
        return None

    def decl(self, tu, did):
        return tu.by_id.get(did)

    def record(self, t):
        t = strip(t)
        if t in self.unnamed:
            return self.unnamed[t]
        n, args = template(t)
        sn = n.split("::")[-1]
        best = None
        for tu in self.tus:
            for r in tu.records.get(sn, ()):
                if args is not None and r.kind != "ClassTemplateSpecializationDecl":
                    continue
                q = tu.qual.get(r.id, sn)
                if q.endswith(n) or n.endswith(q) or n == sn:
                    return r
                best = best or r
        return best if "::" not in n else (best if best is not None and n.split("::")[0] == "static_map" else
                                           (best if n.split("::")[0] in ("data", "common", "filter") else None))

    def alias(self, t):
        """Target of a type alias of the code under check."""
        sn = strip(t).split("::")[-1]
        for tu in self.tus:
            for n in tu.by_id.values():
                if n.kind in ("TypeAliasDecl", "TypedefDecl") and n.name == sn:
                    return n.dtype
        return None

    def is_enum(self, t):
        sn = strip(t).split("::")[-1]
        for tu in self.tus:
            for n in tu.by_id.values():
                if n.kind == "EnumDecl" and n.name == sn:
                    return True
        return False

    def bases(self, rec):
        out = []
        for b in rec.get("bases", ()):
            ty = b["type"].get("desugaredQualType") or b["type"]["qualType"]
            r = self.record(ty)
            if r is not None:
                out.append(r)
        return out

    def fields(self, rec):
        out = []
        for b in self.bases(rec):
            out.extend(self.fields(b))
        last = None
        for c in rec.inner:
            if c.kind == "FieldDecl" and c.name:
                if last is not None and "(unnamed" in c.dtype:
                    self.unnamed[strip(c.dtype)] = last      # struct { ... } name;
                elif last is not None:
                    out.extend(self.fields(last))
                last = None
                out.append((c.name, c.dtype))
                continue
            if last is not None:
                out.extend(self.fields(last))   # anonymous union / struct
                last = None
            if c.kind == "CXXRecordDecl" and not c.name and c.get("completeDefinition"):
                last = c
        if last is not None:
            out.extend(self.fields(last))
        return out

    def field_nodes(self, rec):
        return [c for c in rec.inner if c.kind == "FieldDecl" and c.name]

    def hierarchy(self, rec):
        out = [rec]
        for b in self.bases(rec):
            out.extend(self.hierarchy(b))
        return out

    def find(self, qualname, nth=0, sig=None):
        """Function definition by qualified-name suffix."""
        c = []
        seen = set()
        for tu in self.tus:
            for f in tu.funcs:
                q = tu.qual.get(f.id, f.name)
                if q == qualname or q.endswith("::" + qualname):
                    if sig is not None and sig not in f.type:
                        continue
                    m = f.get("mangledName") or f.id
                    if m in seen:
                        continue
                    seen.add(m)
                    c.append(f)
        inst = [f for f in c if not is_pattern(f)]
        c = inst or c
        if len(c) <= nth:
            return None
        return c[nth]

    def find_all(self, qualname, sig=None):
        out = []
        i = 0
        while True:
            f = self.find(qualname, i, sig)
            if f is None:
                return out
            out.append(f)
            i += 1

    def override(self, dyn_cls, name, decl):
        """Most derived definition of a virtual method for a dynamic class."""
        rec = self.record(dyn_cls)
        if rec is None:
            return None
        for r in self.hierarchy(rec):
            for f in self.methods.get((r.name, name), ()):
                if decl is None or f.type.split("(")[1:2] and \
                        len([p for p in f.inner if p.kind == "ParmVarDecl"]) == \
                        len([p for p in decl.inner if p.kind == "ParmVarDecl"]):
                    return f
        return None


def is_pattern(f):
    """Uninstantiated function template."""
    p = f.parent
    return p is not None and p.kind == "FunctionTemplateDecl" and \
        not any(x.kind == "TemplateArgument" for x in f.inner)
