"""Program model: modules, classes and functions of the analysed package."""
from __future__ import annotations
import ast
import os
from .values import *

REPO = os.environ.get("YVERIF_REPO", "/repo")
PKG = "yangson"


class AnalysisBroken(Exception):
    """An anchor vanished or the program could not be modelled."""


class Source:
    """All modules of the package, parsed from the current working tree."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.trees = {}
        self.paths = {}
        self.srcs = {}
        base = os.path.join(self.repo, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"no package directory {base}")
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(root, f)
                rel = os.path.relpath(p, self.repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                self.trees[name] = ast.parse(src, p)
                self.paths[name] = rel
                self.srcs[name] = src

    def functions(self):
        """Yield (module, qualname, node, class-or-None)."""
        for m, t in self.trees.items():
            yield from self._fns(m, t.body, "", None)

    def _fns(self, m, body, prefix, cls):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + st.name
                yield m, q, st, cls
                yield from self._fns(m, st.body, q + ".", None)
            elif isinstance(st, ast.ClassDef):
                yield from self._fns(m, st.body, prefix + st.name + ".", st.name)
            elif isinstance(st, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
                for fld in ("body", "orelse", "finalbody"):
                    yield from self._fns(m, getattr(st, fld, []), prefix, cls)
                for h in getattr(st, "handlers", []):
                    yield from self._fns(m, h.body, prefix, cls)


def c3(cls):
    """C3 linearisation over Cls and Ext bases."""
    if isinstance(cls, Ext):
        return [cls]
    seqs = [list(b.mro) if isinstance(b, Cls) else [b] for b in cls.bases]
    seqs.append(list(cls.bases))
    res = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return res
        for s in seqs:
            h = s[0]
            if not any(same_cls(h, x) for t in seqs for x in t[1:]):
                break
        else:
            raise AnalysisBroken(f"inconsistent MRO of {cls.name}")
        res.append(h)
        for s in seqs:
            if same_cls(s[0], h):
                s.pop(0)


def same_cls(a, b):
    if isinstance(a, Ext) and isinstance(b, Ext):
        return a.name == b.name
    return a is b
