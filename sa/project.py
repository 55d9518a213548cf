"""Source loading and name resolution.  Nothing of /repo is imported or executed:
every module is parsed with `ast` and only its syntax tree is looked at."""
import ast
import glob
import hashlib
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "syncanysql"


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (an anchor vanished, a source does not parse)."""


def site_packages():
    cands = sorted(glob.glob("/opt/venv/lib/python3*/site-packages"))
    cands += [p for p in sys.path if p.endswith("site-packages")]
    return cands


class Module:
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        with open(path, "rb") as fp:
            self.src = fp.read()
        try:
            self.tree = ast.parse(self.src, filename=path)
        except SyntaxError as e:
            raise AnalysisBroken("cannot parse %s: %s" % (path, e))
        for node in ast.walk(self.tree):
            for child in ast.iter_child_nodes(node):
                child._parent = node
        self.tree._parent = None
        self._top = None

    @property
    def package(self):
        return self.name if self.is_pkg else self.name.rpartition(".")[0]

    def top(self):
        """top-level bindings: name -> list of binding statements, in source order"""
        if self._top is None:
            out = {}

            def add(n, st):
                out.setdefault(n, []).append(st)

            def targets(t, st):
                if isinstance(t, ast.Name):
                    add(t.id, st)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for e in t.elts:
                        targets(e, st)
                elif isinstance(t, ast.Starred):
                    targets(t.value, st)

            def walk(body):
                for st in body:
                    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        add(st.name, st)
                    elif isinstance(st, ast.Assign):
                        for t in st.targets:
                            targets(t, st)
                    elif isinstance(st, (ast.AnnAssign, ast.AugAssign)):
                        targets(st.target, st)
                    elif isinstance(st, ast.Import):
                        for a in st.names:
                            add(a.asname or a.name.split(".")[0], st)
                    elif isinstance(st, ast.ImportFrom):
                        for a in st.names:
                            add(a.asname or a.name, st)
                    elif isinstance(st, ast.If):
                        walk(st.body)
                        walk(st.orelse)
                    elif isinstance(st, ast.Try):
                        walk(st.body)
                        for h in st.handlers:
                            walk(h.body)
                        walk(st.orelse)
                        walk(st.finalbody)
                    elif isinstance(st, (ast.For, ast.While)):
                        if isinstance(st, ast.For):
                            targets(st.target, st)
                        walk(st.body)
                        walk(st.orelse)
                    elif isinstance(st, ast.With):
                        for it in st.items:
                            if it.optional_vars is not None:
                                targets(it.optional_vars, st)
                        walk(st.body)
            walk(self.tree.body)
            self._top = out
        return self._top


class Project:
    """Finds modules: the package under analysis in REPO, libraries in site-packages."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.roots = [self.repo] + site_packages()
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken("no package %s in %s" % (PKG, self.repo))
        self.internal_names = []
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), self.repo)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    self.internal_names.append(rel)
        self.internal_names.sort()

    def internal(self):
        return [self.module(n) for n in self.internal_names]

    def is_internal(self, name):
        return name == PKG or name.startswith(PKG + ".")

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace(".", os.sep)
        mod = None
        roots = [self.repo] if self.is_internal(name) else self.roots[1:]
        for r in roots:
            p = os.path.join(r, rel, "__init__.py")
            if os.path.isfile(p):
                mod = Module(name, p, True)
                break
            p = os.path.join(r, rel + ".py")
            if os.path.isfile(p):
                mod = Module(name, p, False)
                break
        self.modules[name] = mod
        return mod

    def relpath(self, mod):
        if self.is_internal(mod.name):
            return os.path.relpath(mod.path, self.repo)
        return mod.path

    def digest(self, names=None):
        h = hashlib.sha256()
        for n in names or self.internal_names:
            m = self.module(n)
            h.update(n.encode() + b"\0" + (m.src if m else b""))
        return h.hexdigest()

    def resolve_from(self, mod, node):
        """absolute module name of an ImportFrom"""
        if node.level:
            base = mod.package.split(".")
            if node.level > 1:
                base = base[:len(base) - (node.level - 1)]
            return ".".join(base + ([node.module] if node.module else []))
        return node.module


def loc(project, mod, node):
    return "%s:%d" % (project.relpath(mod), getattr(node, "lineno", 0))
