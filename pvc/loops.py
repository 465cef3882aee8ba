"""Loop contracts.

A mechanical AST rewrite routes every `for`/`while` statement of the code under verification
through RUNTIME.enter.  With no contract attached to the loop, the original statement runs
unchanged.  With a contract (h.loop), the loop is verified by induction:

    init(L, lo)      obligations: the invariant holds on entry,
    havoc(L, i)      arbitrary values satisfying the invariant for every variable the body assigns,
    then two paths:  (A) the loop condition holds; the original body is executed once and
                         check(L, i') emits the obligations that the invariant is preserved;
                     (B) the loop condition fails; execution continues after the loop.

Variables assigned in the body that havoc does not provide become Poison, tensors existing before
the loop may only be written when havoc covers them, and attributes of objects may not change."""
import ast
import builtins
import copy
import sys

from . import stensor as st
from . import ext
from . import terms as tm
from . import ctx as cx
from .terms import Unsupported, I


class PathDone(BaseException):
    """The path ends here (inductive step of a loop contract)."""


class Retry(BaseException):
    """A guess about the loop (kept in h.dropped) was wrong: the contract is run again without it."""


def _is_int(x):
    return isinstance(x, st.SymInt) or (isinstance(x, builtins.int) and not isinstance(x, bool))


class Poison:
    """A variable whose value the loop contract does not describe."""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported(f"variable '{object.__getattribute__(self, '_n')}' is not covered by the loop contract")

    def __getattribute__(self, n):
        if n in ("_bad", "__class__"):
            return object.__getattribute__(self, n)
        object.__getattribute__(self, "_bad")()


def _pois(n):
    def f(self, *a, **k):
        object.__getattribute__(self, "_bad")()
    return f


for _n in ("add radd sub rsub mul rmul truediv rtruediv pow rpow neg lt le gt ge eq ne bool len iter getitem "
           "setitem index int float call contains iadd isub imul and or invert").split():
    setattr(Poison, f"__{_n}__", _pois(_n))


# ---------------------------------------------------------------- the rewrite
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "add", "discard",
            "sort", "reverse", "appendleft", "popleft"}


def _mutated(body):
    """Names of containers changed by a method call in a statement list."""
    out = []
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and \
                    isinstance(x.func.value, ast.Name) and x.func.value.id not in out:
                out.append(x.func.value.id)
    return out


def _names(body):
    """Names (re)bound by a statement list, not descending into nested scopes."""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)

    for s in body:
        V().visit(s)
    return [x for x in out if not x.startswith("_pvc_")]


class _Tx(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod, self.q, self.count, self.n = mod, [], {}, 0
        self.local = []

    def visit_FunctionDef(self, node):
        self.q.append(node.name)
        a = node.args
        self.local.append({x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
                          | set(_names(node.body)))
        self.generic_visit(node)
        self.local.pop()
        self.q.pop()
        return node

    def visit_ClassDef(self, node):
        self.q.append(node.name)
        self.generic_visit(node)
        self.q.pop()
        return node

    def visit_Lambda(self, node):
        return self.generic_visit(node)

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) == 1 and len(node.generators[0].ifs) <= 1 and not node.generators[0].is_async:
            g = node.generators[0]
            if isinstance(g.target, ast.Name):
                args = [g.target.id]
                tup = False
            elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                args = [e.id for e in g.target.elts]
                tup = True
            else:
                return node
            if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node)):
                return node
            lam = ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), node.elt)
            cond = [ast.Lambda(copy.deepcopy(lam.args), c) for c in g.ifs]
            r = ast.Call(ast.Attribute(ast.Name("__pvc__", ast.Load()), "listcomp", ast.Load()),
                         [g.iter, lam, ast.Constant(tup)] + cond, [])
            return ast.copy_location(r, node)
        return node

    def _loop(self, node, kind):
        self.n += 1
        n = self.n
        q = ".".join(self.q)
        o = self.count.get(q, 0)
        self.count[q] = o + 1
        orig = copy.deepcopy(node)
        self.generic_visit(node)
        names = _names(orig.body + ([ast.Expr(orig.target)] if kind == "for" else []))
        if kind == "while":
            names += [x for x in _names([ast.Expr(orig.test)]) if x not in names]
        names += [x for x in _mutated(orig.body) if x not in names and self.local and x in self.local[-1]]
        k, it, h = f"_pvc_k{n}", f"_pvc_i{n}", f"_pvc_h{n}"
        def L(s):
            b = ast.parse(s).body
            for x in b:
                for y in ast.walk(x):
                    if hasattr(y, "lineno"):
                        del y.lineno, y.col_offset, y.end_lineno, y.end_col_offset
            return b
        out = []
        if kind == "for":
            out.append(ast.Assign([ast.Name(it, ast.Store())], node.iter))
        else:
            out += L(f"{it} = None")
        out += L(f"{k} = __pvc__.enter({(self.mod, q, o)!r}, {kind!r}, {it}, locals())")
        plain = copy.deepcopy(node)
        if kind == "for":
            plain.iter = ast.Name(it, ast.Load())
        spec = L(f"{h} = {k}.havoc({names!r}, locals())")
        for a in names:
            spec += L(f"{a} = {h}[{a!r}]")
        body = copy.deepcopy(node.body)
        if kind == "for":
            f = ast.For(node.target, L(f"{k}.once()")[0].value, body, copy.deepcopy(node.orelse), None)
        else:
            if node.orelse:
                return node
            brk = ast.If(ast.UnaryOp(ast.Not(), copy.deepcopy(node.test)),
                         L(f"{k}.exit()") + [ast.Break()], [])
            f = ast.For(ast.Name(f"_pvc_o{n}", ast.Store()), L(f"{k}.once()")[0].value, [brk] + body, [], None)
        spec.append(f)
        out.append(ast.If(ast.Compare(ast.Name(k, ast.Load()), [ast.Is()], [ast.Constant(None)]), [plain], spec))
        for s in out:
            for x in ast.walk(s):
                if not hasattr(x, "lineno") and isinstance(x, (ast.expr, ast.stmt)):
                    ast.copy_location(x, orig)
            ast.fix_missing_locations(s)
        return out

    def visit_For(self, node):
        if not self.q:
            return self.generic_visit(node)
        return self._loop(node, "for")

    def visit_While(self, node):
        if not self.q:
            return self.generic_visit(node)
        return self._loop(node, "while")


def transform(tree, name):
    t = _Tx(name).visit(tree)
    ast.fix_missing_locations(t)
    return t


# ---------------------------------------------------------------- runtime
class SymSeq:
    """A sequence of symbolic length: item(i) is its i-th element."""

    def __init__(self, n, item):
        self.n, self.item = st.as_iT(n), item

    def __len__(self):
        k = tm.iconst(self.n)
        if k is None:
            raise Unsupported("len() of a symbolic sequence")
        return k

    def __iter__(self):
        raise Unsupported("iteration over a symbolic sequence")

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("strided slice of a symbolic sequence")
            c = cx.cur()

            def end(x, d):
                if x is None:
                    return d
                x = st.as_iT(x)
                if c.decide(tm.ilt(x, I(0))):
                    x = tm.iadd(self.n, x)
                    x = x if not c.decide(tm.ilt(x, I(0))) else I(0)
                return x if c.decide(tm.ile(x, self.n)) else self.n
            a, b = end(k.start, I(0)), end(k.stop, self.n)
            if not c.decide(tm.ile(a, b)):
                b = a
            return SymSeq(tm.isub(b, a), lambda i: self.item(st.wi(tm.iadd(a, st.as_iT(i)))))
        k = st.as_iT(k)
        c = tm.iconst(k)
        if c is not None and c < 0:
            k = tm.iadd(self.n, k)
        return self.item(st.wi(k))


class Filtered:
    """[f(x) for x in seq if cond(x)] of a symbolic sequence: empty, or with a known first element."""

    def __init__(self, seq, f, cond):
        c = cx.cur()
        self.n = I(0)
        if c.decide(tm.ile(seq.n, I(0))) or not c.choose("some element is selected"):
            return
        self.k = c.new_var("first", seq.n)
        c.assume(cond(seq.item(st.wi(self.k))))
        self.n = tm.fresh_ivar("selected")
        c.varfacts[self.n] = [tm.ile(I(1), self.n), tm.ile(self.n, seq.n)]
        self.first = f(seq.item(st.wi(self.k)))
        if not c.entails(tm.ieq(self.k, I(0))):
            # the elements before the first one are not selected; instantiated at the start of the sequence
            c.assume(tm.bor(tm.ieq(self.k, I(0)), tm.bnot(cond(seq.item(st.wi(I(0)))))))

    def __getitem__(self, k):
        if k != 0:
            raise Unsupported("element of a filtered symbolic sequence")
        if tm.iconst(self.n) == 0:
            raise IndexError("list index out of range")
        return self.first

    def __len__(self):
        raise Unsupported("len of a filtered symbolic sequence")

    __iter__ = __len__


class SymRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = st.as_iT(a), st.as_iT(b), st.as_iT(s)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range without a loop contract")

    def __len__(self):
        raise Unsupported("len of a symbolic range")


def sym_range(*a):
    if any(isinstance(x, (st.SymInt,)) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)
    return builtins.range(*[x.__index__() if isinstance(x, st.STensor) else x for x in a])


def as_seq(x):
    """A tensor with a symbolic leading dimension iterates like a symbolic sequence."""
    if isinstance(x, st.STensor) and x.dims and tm.iconst(x.dims[0]) is None:
        return SymSeq(x.dims[0], lambda i: x[i])
    return x


def sym_zip(*a, **k):
    a = tuple(as_seq(x) for x in a)
    if any(isinstance(x, SymSeq) for x in a):
        if not all(isinstance(x, SymSeq) for x in a):
            raise Unsupported("zip of symbolic and concrete sequences")
        c = cx.cur()
        for x in a[1:]:
            if not c.entails(tm.ieq(x.n, a[0].n)):
                raise Unsupported("zip of sequences of different lengths")
        return SymSeq(a[0].n, lambda i: tuple(x.item(i) for x in a))
    return builtins.zip(*a, **k)


def sym_enumerate(a, start=0):
    a = as_seq(a)
    if isinstance(a, SymSeq):
        return SymSeq(a.n, lambda i: (i + start, a.item(i)))
    if isinstance(a, SymRange):
        return SymSeq(range_len(a), lambda i: (i + start, st.wi(a.a) + i * st.wi(a.s)))
    return builtins.enumerate(a, start)


def range_len(r):
    if tm.iconst(r.s) != 1:
        raise Unsupported("length of a strided symbolic range")
    c = cx.cur()
    if not c.entails(tm.ile(r.a, r.b)):
        raise Unsupported("possibly empty symbolic range")
    return tm.isub(r.b, r.a)


def sym_len(x):
    if isinstance(x, (SymSeq, Filtered)):
        c = tm.iconst(x.n)
        return st.wi(x.n) if c is None else c
    return builtins.len(x)


def sym_list(*a):
    if a and isinstance(a[0], SymSeq):
        return a[0]
    return builtins.list(*a)


class Loop:
    def __init__(self, rt, site, spec, kind, it, L):
        self.site, self.spec, self.kind, self.it = site, spec, kind, it
        self.ctx = cx.cur()
        self.h = self.ctx.h
        self.L0 = dict(L)
        self.done = False
        self.shift = I(0)

    def logical(self, k):
        return None if k is None else st.wi(tm.isub(k, self.shift))

    def concrete(self):
        return isinstance(self.it, (builtins.list, builtins.tuple, builtins.range, builtins.dict, type({}.items()),
                                    type({}.keys()), type({}.values())))

    # loop index bounds
    def bounds(self):
        it = self.it
        if isinstance(it, SymRange):
            return it.a, it.b, it.s
        if isinstance(it, SymSeq):
            return I(0), it.n, I(1)
        if isinstance(it, builtins.range):
            return I(it.start), I(it.stop), I(it.step)
        if isinstance(it, (builtins.list, builtins.tuple)):
            return I(0), I(len(it)), I(1)
        raise Unsupported("loop over an unsupported iterable")

    # the locals under the names the contract uses
    def view(self, L):
        L = dict(L)
        L.update({c: L[a] for c, a in self.alias.items() if a in L})
        return L

    def resolve(self, names, L):
        """Which local plays which role: by name, else by its value on entry."""
        self.alias = {}
        taken = {n for n in names if n in (self.spec.roles or {})}
        for c, want in (self.spec.roles or {}).items():
            if c in names or c in L:
                continue
            w = want(self.view(L))
            for n in [*names, *(x for x in L if x not in names and not x.startswith("_"))]:
                if n in L and n not in taken and type(L[n]) is not Poison and self.matches(L[n], w):
                    self.alias[c] = n
                    taken.add(n)
                    break

    def matches(self, v, w):
        if isinstance(w, Like):
            return isinstance(v, st.STensor) and len(v.dims) == len(w.shape) and v.dtype == w.dtype and all(
                a is b or self.ctx.entails(tm.ieq(a, b)) for a, b in zip(v.dims, (st.as_iT(x) for x in w.shape)))
        if isinstance(w, (builtins.tuple, builtins.list)):
            return isinstance(v, (builtins.tuple, builtins.list)) and len(v) == len(w) and \
                all(self.matches(x, y) for x, y in zip(v, w))
        if isinstance(w, ext.Ext):
            return isinstance(v, ext.Ext) and self.h.same(v, w)
        if isinstance(v, st.STensor) != isinstance(w, st.STensor):
            return False
        if isinstance(w, st.STensor):
            return self.h.same(v, w)
        if _is_int(w):
            return _is_int(v) and self.ctx.entails(tm.ieq(st.as_iT(v), st.as_iT(w)))
        return v is w

    def index_var(self, names, L):
        """The local a while loop counts its steps with, if the contract asks for one."""
        for x in self.spec.index if isinstance(self.spec.index, builtins.list) else [self.spec.index]:
            lo, step, hi = (y if y is None else st.as_iT(y) for y in x)
            for n in names:
                if n in L and _is_int(L[n]) and (self.site, n, "index") not in self.h.dropped and \
                        self.ctx.entails(tm.ieq(st.as_iT(L[n]), lo)):
                    return n, lo, hi, step
        raise Unsupported("no variable counts the steps of the loop")

    def generic(self, n, v):
        """A variable the contract does not describe: arbitrary, of its kind on entry."""
        h, c = self.h, self.ctx
        if isinstance(v, st.STensor) and type(v) is st.STensor and v.dtype in "fib":
            g = h.arbitrary(v.dims, n)
            if v.dtype != "f":
                return None
            self.kinds[n] = ("tensor", v.dims)
            return g
        if isinstance(v, ext.Ext):
            self.kinds[n] = ("ext", v.dims)
            return h.nanable(h.arbitrary(v.dims, n), h.mask(f"{n}!{st._next()}", v.dims))
        if isinstance(v, bool):
            self.kinds[n] = ("bool",)
            return c.choose(f"flag {n}")
        if _is_int(v):
            v0 = st.as_iT(v)
            if self.k is not None and self.ok(n, "counts"):
                i = tm.iadd(v0, tm.isub(self.k, self.lo))
                if tm.iconst(self.step) == 1:
                    self.kinds[n] = ("counts", v0)
                    return st.wi(i)
            i = tm.fresh_ivar(n)
            f = []
            if self.ok(n, "low"):
                f.append(tm.ile(v0, i))
            if self.spec.counter is not None and self.ok(n, "high"):
                hi = st.as_iT(self.spec.counter)
                if c.entails(tm.ile(v0, hi)):
                    f.append(tm.ile(i, hi))
            c.varfacts[i] = f
            for x in f:
                c.assume(x)
            self.kinds[n] = ("int", v0, i)
            return st.wi(i)
        return None

    def ok(self, n, what):
        return (self.site, n, what) not in self.h.dropped

    def drop(self, n, what):
        self.h.dropped.add((self.site, n, what))
        raise Retry()

    def kept(self, L):
        """The undescribed variables are still what `generic` assumes of them; progress of a while loop."""
        c = self.ctx
        progress = False
        for n, k in self.kinds.items():
            v = L.get(n)
            if k[0] in ("tensor", "ext"):
                if not isinstance(v, (st.STensor, ext.Ext)[k[0] == "ext"]) or v.dtype != "f" or len(v.dims) != len(k[1]) or \
                        not all(a is b or c.entails(tm.ieq(a, b)) for a, b in zip(v.dims, k[1])):
                    raise Unsupported(f"variable '{n}' changes its shape in the loop")
            elif k[0] == "bool":
                if not isinstance(v, bool):
                    raise Unsupported(f"variable '{n}' changes its type in the loop")
            elif not _is_int(v):
                raise Unsupported(f"variable '{n}' changes its type in the loop")
            elif k[0] == "counts":
                want = tm.iadd(k[1], tm.isub(tm.iadd(self.k, self.step), self.lo))
                if not c.entails(tm.ieq(st.as_iT(v), want)):
                    self.drop(n, "counts")
            else:
                t = st.as_iT(v)
                if self.ok(n, "low") and not c.entails(tm.ile(k[1], t)):
                    self.drop(n, "low")
                if self.spec.counter is not None and self.ok(n, "high"):
                    hi = st.as_iT(self.spec.counter)
                    if not c.entails(tm.ile(t, hi)):
                        self.drop(n, "high")
                    progress = progress or c.entails(tm.ilt(k[2], t))
        if self.kind == "while" and self.spec.counter is not None:
            self.h._add("the loop ends", progress, "" if progress else
                        "no variable counts the iterations towards their limit", "z3")

    def havoc(self, names, L):
        c, s = self.ctx, self.spec
        self.kinds, self.lo = {}, None
        self.resolve(names, L)
        self.h.assigned = {c for c, a in self.alias.items() if a in names} | set(names)
        L = self.view(L)
        self.count = None
        if self.kind == "for" and self.concrete():
            self.it = builtins.list(self.it)
            s.init(dict(L), 0)
            self.step, self.lo, n, j = I(1), I(0), len(self.it), 0
            while j < n and not c.choose(f"loop item {j}"):
                j += 1
            self.k, self.body = I(j), j < n
        elif self.kind == "for" or s.index is not None:
            if self.kind == "for":
                lo, hi, step = self.bounds()
            else:
                self.count, lo, hi, step = self.index_var(names, L)
            if s.first is not None:
                # the contract numbers the iterations from its own first index
                first, by = (st.as_iT(x) for x in s.first)
                if step is not by and not c.entails(tm.ieq(step, by)):
                    raise Unsupported("the loop does not advance as its contract does")
                self.shift = tm.isub(lo, first)
            self.step, self.lo = step, lo
            s.init(dict(L), self.logical(lo))
            k = tm.fresh_ivar("it")
            c.varfacts[k] = [tm.ile(lo, k)]
            c.assume(tm.ile(lo, k))
            self.k = k
            self.body = True if hi is None else c.choose("loop body")
            if hi is None:
                pass
            elif self.body:
                c.assume(tm.ilt(k, hi))
            else:
                # exit: either no iteration, or the previous index was still inside
                c.assume(tm.ile(hi, k))
                c.assume(tm.bor(tm.ieq(k, lo), tm.ilt(tm.isub(k, step), hi)))
                if tm.iconst(step) == 1 and c.entails(tm.ile(lo, hi)):
                    # k == hi; use hi itself
                    self.k = hi
            if not c.entails(tm.ilt(I(0), step)):
                raise Unsupported("loop step not positive")
        else:
            s.init(dict(L), None)
            self.k = None
            self.body = True
        # managed state
        new = s.havoc(dict(L), self.logical(self.k)) or {}
        new = {self.alias.get(n, n): v for n, v in new.items()}
        managed = [t.st for t in (s.managed(dict(L)) if s.managed else ())]
        out = {}
        for n in names:
            v = new.get(n)
            if n == self.count:
                v = st.wi(self.k)
            elif n not in new and n in L and type(L[n]) is not Poison:
                v = self.generic(n, L[n]) if not (s.managed and any(
                    isinstance(L[n], st.STensor) and L[n].st is m for m in managed)) else L[n]
            out[n] = Poison(n) if v is None and n not in new else v
        before = st.serial()
        for n, v in new.items():
            # may be written in place if nothing else holds the tensor it stands for
            if isinstance(v, st.STensor) and isinstance(L.get(n), st.STensor) and not self.shared(n, L):
                managed.append(v.st)
        for n in new:
            if n not in out and new[n] is not L.get(n):
                raise Unsupported(f"loop contract describes '{n}', which the loop does not assign")
        self.guard = (before, managed)
        self.objs = self.snapshot(L)
        self.managed_attrs = set(s.attrs or ())
        return out

    def shared(self, n, L):
        s = L[n].st

        def held(v, depth):
            if isinstance(v, st.STensor):
                return v.st is s or (v.st.maybe_alias or (None,))[0] is s or (s.maybe_alias or (None,))[0] is v.st
            if isinstance(v, (builtins.list, builtins.tuple)) and depth:
                return any(held(x, depth - 1) for x in v)
            if isinstance(v, builtins.dict) and depth:
                return any(held(x, depth - 1) for x in v.values())
            if type(v) is Poison:
                return False
            if hasattr(v, "__dict__") and depth:
                return any(held(x, depth - 1) for x in vars(v).values())
            return False
        back = {c for c, a in self.alias.items() if a == n or c == n} | {self.alias.get(n), n}
        return any(held(v, 2) for m, v in L.items() if m not in back and not m.startswith("_pvc_")) or any(held(x[1], 1) for x in self.h.inputs)

    def snapshot(self, L):
        r = []
        for n, v in L.items():
            if n.startswith("_pvc_") or type(v) is Poison:
                continue
            if isinstance(v, (st.STensor, ext.Ext)):
                continue
            if isinstance(v, (builtins.list,)):
                r.append((n, v, list(v)))
            elif isinstance(v, builtins.dict):
                r.append((n, v, dict(v)))
            elif hasattr(v, "__dict__") and type(v).__module__.split(".")[0] in ("pyoptmat", "pvc") \
                    and not isinstance(v, type) and not callable(getattr(v, "at", None)):
                r.append((n, v, dict(v.__dict__)))
        return r

    def unchanged(self):
        for n, v, old in self.objs:
            if isinstance(v, builtins.list):
                if len(v) != len(old) or any(a is not b for a, b in zip(v, old)):
                    raise Unsupported(f"loop body changes list '{n}', not covered by the loop contract")
                continue
            new = v if isinstance(v, builtins.dict) else v.__dict__
            for k in set(new) | set(old):
                if k.startswith("_pvc"):
                    continue
                if new.get(k) is not old.get(k) and (n, k) not in self.managed_attrs:
                    raise Unsupported(f"loop body changes {n}.{k}, not covered by the loop contract")

    def item(self):
        k = st.wi(self.k)
        if isinstance(self.it, SymSeq):
            return self.it.item(k)
        if isinstance(self.it, builtins.list):
            return self.it[k]
        return k

    def once(self):
        if not self.body:
            return
        c = self.ctx
        c.guards.append(self.guard)
        try:
            yield (self.item() if self.kind == "for" else None)
            L = self.view(sys._getframe(1).f_locals)
            self.unchanged()
            c.guards.remove(self.guard)
            self.done = True
            self.kept(L)
            k2 = None if self.k is None else tm.iadd(self.k, self.step)
            if self.count and not (_is_int(L[self.count]) and c.entails(tm.ieq(st.as_iT(L[self.count]), k2))):
                self.drop(self.count, "index")
            self.spec.check(L, self.logical(k2))
            raise PathDone()
        finally:
            if self.guard in c.guards:
                c.guards.remove(self.guard)

    def exit(self):
        """The while condition is false on this path."""
        if self.guard in self.ctx.guards:
            self.ctx.guards.remove(self.guard)


class Runtime:
    def enter(self, site, kind, it, L):
        c = cx.cur()
        if c is None:
            return None
        it = as_seq(it)
        specs = getattr(c, "loops", None)
        if specs:
            s = specs.get(site)
            if s is not None and (s.when is None or s.when(L, it)):
                return Loop(self, site, s, kind, it, L)
        return None

    def listcomp(self, it, f, tup, cond=None):
        it = as_seq(it)
        if cond is not None and isinstance(it, (SymSeq, SymRange)):
            if isinstance(it, SymRange):
                it = SymSeq(range_len(it), lambda i, it=it: st.wi(it.a) + i)

            def test(x):
                r = cond(*x) if tup else cond(x)
                return st.as_bT(r)
            return Filtered(it, (lambda x: f(*x)) if tup else f, test)
        if cond is not None:
            if tup:
                return [f(*x) for x in it if cond(*x)]
            return [f(x) for x in it if cond(x)]
        if isinstance(it, SymSeq):
            return SymSeq(it.n, (lambda i: f(*it.item(i))) if tup else (lambda i: f(it.item(i))))
        if isinstance(it, SymRange):
            n = range_len(it)
            return SymSeq(n, lambda i: f(st.wi(it.a) + i))
        if tup:
            return [f(*x) for x in it]
        return [f(x) for x in it]


RUNTIME = Runtime()


class Like:
    """Any tensor of this shape (as the value of a role)."""

    def __init__(self, shape, dtype="f"):
        self.shape, self.dtype = shape, dtype


class Spec:
    """roles: {name: value on entry} finds variables whose names differ from the contract's; index: (lo, step, hi) a while
    loop may count with; first: (index, step) the contract numbers the iterations with, whatever the loop starts at;
    counter: the limit on the number of iterations of a while loop.
    Variables the contract leaves out are arbitrary (integers: as counters of the iterations, or in range, where that is inductive)."""

    def __init__(self, init, havoc, check, managed=None, attrs=None, when=None, roles=None, index=None, counter=None,
                 first=None):
        self.init, self.havoc, self.check = init, havoc, check
        self.managed, self.attrs, self.when = managed, attrs, when
        self.roles, self.index, self.counter, self.first = roles, index, counter, first


def builtin_overrides():
    return {"len": sym_len, "range": sym_range, "zip": sym_zip, "enumerate": sym_enumerate, "list": _List, "int": _Int}


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __call__(cls, *a):
        if len(a) == 1 and isinstance(a[0], st.SymInt):
            return a[0]
        if len(a) == 1 and isinstance(a[0], st.STensor) and a[0].dtype in "ib":
            x = a[0].item() if not a[0].dims else a[0].reshape(()).item()
            return x
        return builtins.int(*a)


class _Int(metaclass=_IntMeta):
    """`int`, keeping symbolic integers symbolic."""
    k = "i"


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.list)

    def __call__(cls, *a):
        return sym_list(*a)


class _List(metaclass=_ListMeta):
    """`list`, keeping sequences of symbolic length symbolic."""
