"""Mechanical extraction: clang AST of the real sources, as Python objects."""
import atexit
import json
import os
import re
import shutil
import subprocess
import tempfile

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = [
    "-DEIGEN_HAS_CXX17_OVERALIGN=0", "-DENABLE_PROFILING",
    '-D_PROF_LOG_DIR_=".static_mapping_log"', "-O2", "-DNDEBUG",
    "-std=gnu++14", "-fopenmp", "-I" + HERE + "/stubs",
    "-I" + REPO + "/third_parties", "-I" + REPO + "/.", "-I" + REPO + "/builder",
    "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/pcl-1.14",
    "-isystem", "/usr/include/vtk-9.1", "-w",
]


_TPL = re.compile(r"(\.|->)(\s*)template(\s+\w+\s*\()")
_overlay = None


def overlay():
    """clang (unlike gcc) refuses `x.template f(...)` without template
    arguments: blank the superfluous keyword, keeping every position."""
    global _overlay
    if _overlay is None:
        _overlay = []
        files = []
        for top in ("common", "builder", "pre_processors", "back_end", "registrators", "descriptor"):
            for d, _, fs in os.walk(os.path.join(REPO, top)):
                for f in sorted(fs):
                    if f.endswith((".h", ".cc", ".hpp")):
                        p = os.path.join(d, f)
                        with open(p, errors="replace") as h:
                            t = h.read()
                        t2 = _TPL.sub(lambda m: m.group(1) + m.group(2) + " " * 8 + m.group(3), t)
                        if t2 != t:
                            files.append((p, t2))
        if files:
            tmp = tempfile.mkdtemp(prefix="vf-overlay-")
            atexit.register(shutil.rmtree, tmp, True)
            roots = []
            for i, (p, t) in enumerate(files):
                q = os.path.join(tmp, "%d" % i)
                with open(q, "w") as h:
                    h.write(t)
                roots.append({"type": "directory", "name": os.path.dirname(p), "contents": [
                    {"type": "file", "name": os.path.basename(p), "external-contents": q}]})
            y = os.path.join(tmp, "overlay.yaml")
            with open(y, "w") as h:
                json.dump({"version": 0, "use-external-names": False, "roots": roots}, h)
            _overlay = ["-ivfsoverlay", y]
    return _overlay


class ExtractionError(Exception):
    """The translation unit does not parse or a function is missing."""


class Unsupported(Exception):
    """A construct outside the verifier's dialect."""


class Node:
    __slots__ = ("kind", "id", "d", "inner", "parent", "tu")

    def __init__(self, d, tu, parent=None):
        self.d = d
        self.tu = tu
        self.kind = d.get("kind", "")
        self.id = d.get("id")
        self.parent = parent
        self.inner = [Node(c, tu, self) for c in d.get("inner", ()) if c]

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def name(self):
        return self.d.get("name", "")

    @property
    def type(self):
        t = self.d.get("type")
        return t.get("qualType", "") if t else ""

    @property
    def dtype(self):
        """Desugared type."""
        t = self.d.get("type")
        if not t:
            return ""
        return t.get("desugaredQualType") or t.get("qualType", "")

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.inner))

    def find(self, *kinds):
        return [n for n in self.walk() if n.kind in kinds]

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name or self.type)


def _decode_stream(text):
    dec = json.JSONDecoder()
    i = 0
    n = len(text)
    while True:
        j = text.find("{", i)
        if j < 0 or j >= n:
            return
        obj, i = dec.raw_decode(text, j)
        yield obj


FUNCS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl",
         "CXXDestructorDecl", "CXXConversionDecl")


class TU:
    """One translation unit, restricted to declarations of the repository."""

    def __init__(self, source, filt="static_map", extra=(), text=None):
        self.source = source
        path = source if source.startswith("/") else os.path.join(REPO, source)
        cmd = ["clang++-18"] + FLAGS + overlay() + list(extra) + [
            "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang",
            "-ast-dump-filter=" + filt]
        if text is not None:
            cmd += ["-x", "c++", "-"]
            inp = text
        else:
            cmd += [path]
            inp = None
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           input=inp, text=True)
        if p.returncode != 0:
            raise ExtractionError("clang cannot parse %s:\n%s" %
                                  (source, p.stderr[-3000:]))
        self.cmd = " ".join(cmd)
        self.docs = [Node(o, self) for o in _decode_stream(p.stdout)]
        self.by_id = {}
        self.funcs = []      # function nodes with a body
        self.records = {}    # qualified name -> definition nodes
        self.qual = {}
        for d in self.docs:
            self._index(d, ())
        self._fix_qual()

    def _index(self, root, scope):
        # iterative; scope is tuple of names
        st = [(root, scope)]
        while st:
            n, sc = st.pop()
            if n.id and n.id not in self.by_id:
                self.by_id[n.id] = n
            elif n.id and n.kind in FUNCS and self._body(n) is not None:
                self.by_id[n.id] = n
            sub = sc
            if n.kind in ("NamespaceDecl", "CXXRecordDecl", "EnumDecl",
                          "ClassTemplateSpecializationDecl") and n.name:
                sub = sc + (n.name,)
                if n.kind != "NamespaceDecl":
                    self.qual[n.id] = "::".join(sub)
                if n.get("completeDefinition"):
                    self.records.setdefault(n.name, []).append(n)
            if n.kind in FUNCS:
                self.qual[n.id] = "::".join(sc + (n.name,))
                if self._body(n) is not None:
                    self.funcs.append(n)
                sub = sc + (n.name,)
            for c in reversed(n.inner):
                st.append((c, sub))

    @staticmethod
    def _body(n):
        for c in n.inner:
            if c.kind == "CompoundStmt":
                return c
            if c.kind == "CXXTryStmt":
                return c
        return None

    def _fix_qual(self):
        # out-of-line definitions: qualify through parentDeclContextId
        for f in self.funcs:
            pid = f.get("parentDeclContextId")
            if pid and pid in self.qual:
                self.qual[f.id] = self.qual[pid] + "::" + f.name
            elif f.get("previousDecl") in self.qual:
                self.qual[f.id] = self.qual[f.get("previousDecl")]


_cache = {}


def load(source, **kw):
    key = (source, tuple(sorted((k, str(v)) for k, v in kw.items())))
    if key not in _cache:
        _cache[key] = TU(source, **kw)
    return _cache[key]
