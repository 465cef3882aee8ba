"""Load pyoptmat's source files, from /repo's working tree, under the shim.

The source is executed unchanged except for one mechanical AST rewrite (loops.py):
`for`/`while` statements and the builtins listed there are routed through the
verifier's runtime, which falls through to plain Python when nothing symbolic is
involved.  Nothing is dropped."""
import ast
import builtins
import os
import sys
import types

from . import shim
from .terms import Unsupported

REPO = os.environ.get("PVC_REPO", "/repo")


# callees that callers are checked against by contract
STUBBABLE = {("pyoptmat.solvers", n) for n in ("newton_raphson", "newton_raphson_bt", "newton_raphson_chunk",
                                               "lu_linear_solve", "jacobi_iteration_linear_solve", "jacobi_gmres", "lu_gmres", "gmres")}
STUBBABLE.add(("pyoptmat.experiments", "convert_results"))
STUBBABLE.add(("pyoptmat.chunktime", "newton_raphson_chunk"))
STUBBABLE |= {("pyoptmat.ode", "odeint"), ("pyoptmat.ode", "odeint_adjoint")}


ABSENT = object()


class Loader:
    def __init__(self):
        self.mods = {}
        self.shims = shim.make_modules()
        self.shims["math"] = shim.make_math()
        self.shims["numpy"] = shim.make_numpy()
        self.shims["warnings"] = shim.make_warnings()
        self.reads = {}
        self.patches = []
        self.stubs = {}      # (module, function) -> replacement, set by a contract for one run

    def _stubbable(self, name, m):
        """Route calls of module-level functions through self.stubs, so that a contract can replace a
        callee by that callee's own contract (the callee is verified separately)."""
        import functools
        for k, v in list(m.__dict__.items()):
            if isinstance(v, types.FunctionType) and v.__module__ == name and (name, k) in STUBBABLE:
                def disp(*a, __f=v, __k=(name, k), **kw):
                    return self.stubs.get(__k, __f)(*a, **kw)
                m.__dict__[k] = functools.wraps(v)(disp)

    def unpatch(self):
        for m, n, v in reversed(self.patches):
            if v is ABSENT:
                delattr(m, n)
            else:
                setattr(m, n, v)
        self.patches = []

    def load(self, name):
        """name like 'pyoptmat.models'"""
        if name in self.mods:
            return self.mods[name]
        if name == "pyoptmat":
            m = types.ModuleType(name)
            m.__path__ = [os.path.join(REPO, "pyoptmat")]
            self.mods[name] = m
            return m
        path = os.path.join(REPO, *name.split(".")) + ".py"
        with open(path) as f:
            src = f.read()
        self.reads[name] = path
        from . import loops
        tree = loops.transform(ast.parse(src, path), name)
        code = compile(tree, path, "exec")
        m = types.ModuleType(name)
        m.__file__ = path
        self.mods[name] = m
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b.update(loops.builtin_overrides())
        m.__dict__["__builtins__"] = b
        m.__dict__["__pvc__"] = loops.RUNTIME
        exec(code, m.__dict__)
        self._stubbable(name, m)
        from . import history
        history.wrap_symbolic(m, name)
        par = self.load("pyoptmat")
        setattr(par, name.split(".")[-1], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            raise Unsupported("relative import")
        root = name.split(".")[0]
        if root == "pyoptmat":
            if fromlist:
                m = self.load(name)
                if name == "pyoptmat":
                    for f in fromlist:
                        self.load("pyoptmat." + f)
                return m
            self.load(name)
            return self.load("pyoptmat")
        if root in ("torch", "functorch", "matplotlib", "pyro", "xarray", "tqdm"):
            if name in self.shims:
                if fromlist or "." not in name:
                    return self.shims[name]
                return self.shims[root]
            raise Unsupported(f"import {name}")
        if root in ("math", "warnings"):
            return self.shims[root]
        if root == "numpy" and "numpy" in self.shims:
            return self.shims["numpy"]
        return builtins.__import__(name, globals, locals, fromlist, level)
