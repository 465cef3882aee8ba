"""C10: block-bidiagonal solves are exact and leave their inputs alone.

The right-hand side is written as v = M X with X arbitrary: M (nonsingular diagonal blocks) is onto, so this
covers every right-hand side, and the solve must return X."""
from pvc.engine import contract

P = "C10"
CM = "pyoptmat.chunktime"
CLS = {"thomas": "BidiagonalThomasFactorization", "pcr": "BidiagonalPCRFactorization",
       "hybrid": "BidiagonalHybridFactorization"}


def problem(h, nlo=1, nhi=9):
    """Operator (A, B), arbitrary X and v = M X in the block layout (nblk, sbat, sblk)."""
    T = h.torch
    n, b, p = h.dim("nblk", nlo, nhi), h.dim("sbat", 1, 3), h.dim("sblk", 1, 3)
    A = h.real("A", (n, b, p, p), con=(-0.4, 0.4))
    if not h.sym:
        A += 1.5 * T.eye(p)
        h.inputs[-1] = ("A", A, A.clone())
    B = h.real("B", (n - 1, b, p, p), con=(-0.8, 0.8))
    X = h.real("X", (n, b, p))
    return n, b, p, A, B, X


def times(h, A, B, X):
    """(M X)_k = A_k X_k + B_{k-1} X_{k-1}."""
    T = h.torch
    v = (A * X.unsqueeze(-2)).sum(-1)
    low = (B * X[:-1].unsqueeze(-2)).sum(-1)
    return v + T.cat([T.zeros((1,) + tuple(X.shape[1:])), low])


def flat(x):
    return x.transpose(0, 1).flatten(start_dim=1)


def rows(x, n, b, p):
    return x.reshape(b, n, p).transpose(0, 1)


def kinds():
    yield dict(kind="thomas", ms=0)
    yield dict(kind="pcr", ms=0)
    for m in (0, 1, 2, 3, 5, 20):
        yield dict(kind="hybrid", ms=m)


def build(M, kind, ms, A, B):
    if kind == "hybrid":
        return M.BidiagonalHybridFactorization(A, B, min_size=ms)
    return getattr(M, CLS[kind])(A, B)


class Blocks:
    """What _pow2 guarantees (proved by its own contract): cnt blocks [start(j), end(j)) of sizes 2^k(j), the first
    at row 0, each at the last row of the one before, the last ending with the last row."""

    def __init__(self, h, n, name="blk"):
        self.h, self.n = h, n
        self.cnt = h.int(f"{name}~cnt", 1)
        self.start = h.sequence(f"{name}~start", self.cnt, 0)
        self.k = h.sequence(f"{name}~k", self.cnt, 0)
        self.end = h.mapped(self.start, lambda j: self.start.item(j) + self.size(j))
        self.at(0)

    def size(self, j):
        return 2 ** self.k.item(j)

    def at(self, j, cnt=None):
        """The guarantees for block j of 0 .. cnt (the prefix of the blocks in use)."""
        h, s, e = self.h, self.start.item, self.end.item
        cnt = self.cnt if cnt is None else cnt
        h.require(s(0) == 0)
        h.require(e(j) <= self.n)
        h.require((j == 0) | (self.size(j) >= 2))
        h.require((j == 0) | (s(j) == e(j - 1) - 1))
        h.require((j + 1 == cnt) | (s(j + 1) == e(j) - 1))
        h.require((j + 1 != self.cnt) | (e(j) == self.n))


def pcr_loop(h, kind, now):
    """Cyclic reduction: block after block becomes decoupled; row r < d is A_r X_r, the others are untouched."""
    if not h.sym:
        return
    T = h.torch
    A, B = now["A"], now["B"]
    cls = CLS[kind]
    g = {}

    def begin(n):
        g["blk"] = Blocks(h, n, f"blk{len(now.setdefault('runs', []))}")
        now["runs"].append(0)
        return g["blk"].start, g["blk"].end

    def want(d):
        X = now["X"]
        done = (A * X.unsqueeze(-2)).sum(-1)
        return T.where((T.arange(X.shape[0]) < d)[:, None, None], done, now["v"]).unsqueeze(-1)

    def padded():
        return T.cat([T.zeros((1,) + tuple(B.shape[1:])), B])

    def state(L, d, check):
        """Rows of v and of the padded off-diagonal blocks when the first d rows are decoupled."""
        rest = (T.arange(B.shape[0] + 1) >= d)[:, None, None, None]
        if check:
            h.eq("rows decoupled so far, the others untouched", L["v"], want(d))
            h.eq("off-diagonal blocks still to be used", T.where(rest, L["B"], 0.0), T.where(rest, padded(), 0.0))
        else:
            nm = h.arbitrary(tuple(L["B"].shape), "used")
            L["v"].copy_(want(d))
            L["B"].copy_(T.where(rest, padded(), nm))

    def init(L, j):
        state(L, 1, True)

    def havoc(L, j):
        b = g["blk"]
        cnt = g.get("cnt", b.cnt)
        if h.reached(j, cnt):
            b.at(j - 1, cnt)
            state(L, b.end.item(j - 1), False)
        else:
            b.at(j, cnt)
            g["j"] = j
            state(L, b.start.item(j) + 1, False)
        return {}

    def check(L, j2):
        state(L, g["blk"].end.item(j2 - 1), True)

    def solve_block(self, lu, piv, Bb, v):
        b, j = g["blk"], g["j"]
        s, e = b.start.item(j), b.end.item(j)
        h.holds("block of a power of two rows", v.shape[0] == b.size(j))
        h.holds("the strided views of the reduction are of contiguous data", v.is_contiguous() & Bb.is_contiguous())
        h.holds("factors of the block", h.same_view(lu, self.lu[s:e]) and h.same_view(piv, self.pivots[s:e]))
        AX = (A * now["X"].unsqueeze(-2)).sum(-1)
        Xb, AXb = now["X"][s:e], AX[s:e]
        h.eq("block starts with its first row decoupled", v,
             (AXb + (Bb * h.shift(Xb, 1).unsqueeze(-2)).sum(-1)).unsqueeze(-1))
        v.copy_(AXb.unsqueeze(-1))
        Bb[1:] = h.arbitrary(tuple(Bb[1:].shape), "used")
        return Bb[1:], v[1:]

    h.patch(CM, "BidiagonalPCRFactorization._solve_block", solve_block)
    g["want"], g["begin"] = want, begin
    if kind == "pcr":
        h.patch(CM, "BidiagonalPCRFactorization._pow2", staticmethod(begin))
    else:
        def pcr_blocks(self):
            """Contract of _pcr_blocks: no block, or the first cnt of them."""
            g.pop("cnt", None)
            if h.choose("no cyclic reduction"):
                return [], [], 1
            s, e = begin(self.nblk)
            b = g["blk"]
            cnt = g["cnt"] = h.int("blk~used", 1, b.cnt)
            b.at(cnt - 1, cnt)
            return s[:cnt], e[:cnt], e[cnt - 1]
        h.patch(CM, "BidiagonalHybridFactorization._pcr_blocks", pcr_blocks)
    h.loop(CM, f"{cls}.matvec", 0, init=init, havoc=havoc, check=check, managed=lambda L: [L["v"], L["B"]],
           when=lambda L, it: h.is_seq(it) or "blk" in g and h.is_range(it, g.get("cnt", g["blk"].cnt)))
    if kind == "hybrid":
        thomas_loop(h, now, "BidiagonalHybridFactorization.matvec", 1)


def loops(h, kind, now):
    if kind == "thomas":
        thomas_loop(h, now)
    else:
        pcr_loop(h, kind, now)


@contract(P, "forward", kinds(), samples=60)  # the hybrid size is arbitrary in the proof
def c_solve(h, kind, ms):
    """Exact solution; operator and right-hand side unchanged; the factorization may be reused."""
    M = h.mod(CM)
    n, b, p, A, B, X = problem(h, nhi=20)
    now = dict(X=X, v=times(h, A, B, X), A=A, B=B)
    loops(h, kind, now)
    v = flat(now["v"]).clone()
    v0 = v.clone()
    op = build(M, kind, ms, A, B)
    x = op(v)
    h.shape("solution", x, (b, n * p))
    h.eq("exact solution", rows(x, n, b, p), X)
    h.eq("right-hand side unchanged", v, v0)
    h.eq("diagonal blocks unchanged", op.A, A)
    h.eq("off-diagonal blocks unchanged", op.B, B)
    Y = h.real("Y", (n, b, p))
    now.update(X=Y, v=times(h, A, B, Y))
    w = flat(now["v"]).clone()
    h.eq("exact solution when reused", rows(op(w), n, b, p), Y)


@contract(P, "matvec", [dict(kind=k, ms=m) for k, m in (("thomas", 0), ("pcr", 0), ("hybrid", 2))], samples=30)
def c_matvec(h, kind, ms):
    """The backsolve for right-hand sides in block form, in any order in memory."""
    M = h.mod(CM)
    n, b, p, A, B, X = problem(h, nhi=20)
    now = dict(X=X, v=times(h, A, B, X), A=A, B=B)
    loops(h, kind, now)
    v = now["v"].transpose(0, 1).contiguous().transpose(0, 1).unsqueeze(-1)
    x = build(M, kind, ms, A, B).matvec(v)
    h.shape("solution", x, (n, b, p, 1))
    h.eq("exact solution", x.squeeze(-1), X)


def thomas_loop(h, now, qual="thomas_solve", k=0):
    """Rows below i solved, the others still the right-hand side, of the solve going on now."""
    def want(i):
        T = h.torch
        X = now["X"].unsqueeze(-1)
        return T.where((T.arange(X.shape[0]) < i)[:, None, None, None], X, now["v"].unsqueeze(-1))

    off = [0]      # first row still to be solved, relative to the index of the loop

    def init(L, i):
        off[0] = next((d for d in (0, 1, -1) if h.same(L["v"], want(i + d))), 0)
        inv(L, i)

    def inv(L, i):
        h.eq("rows solved so far, the others untouched", L["v"], want(i + off[0]))
    if h.sym:
        n = now["X"].shape[0]
        h.loop(CM, qual, k, init=init, check=inv, managed=lambda L: [L["v"]],
               havoc=lambda L, i: {"v": L["v"].copy_(want(i + off[0]))}, roles=dict(v=lambda L: want(1)),
               index=[(1, 1, n), (0, 1, n - 1)])


@contract(P, "thomas_solve", samples=30, internal={CM + ":thomas_solve": 4})
def c_thomas(h):
    M = h.mod(CM)
    n, b, p, A, B, X = problem(h)
    lu, piv, _ = h.torch.linalg.lu_factor_ex(A)
    v = times(h, A, B, X).unsqueeze(-1).clone()
    thomas_loop(h, dict(X=X, v=times(h, A, B, X)))
    x = M.thomas_solve(lu, piv, B, v)
    h.eq("exact solution", x.squeeze(-1), X)


@contract(P, "BidiagonalForwardOperator.forward", samples=30)
def c_forward(h):
    M = h.mod(CM)
    n, b, p, A, B, X = problem(h)
    x = flat(X).clone()
    op = M.BidiagonalForwardOperator(A, B)
    y = op(x)
    h.shape("product", y, (b, n * p))
    h.eq("product", rows(y, n, b, p), times(h, A, B, X))
    h.eq("input unchanged", x, flat(X))


@contract(P, "BidiagonalForwardOperator.inverse", [dict(kind=k) for k in CLS], samples=30)
def c_inverse(h, kind):
    """Applying the operator to the solution returns the right-hand side."""
    M = h.mod(CM)
    n, b, p, A, B, X = problem(h)
    if h.sym:
        def forward(self, v):
            """Contract of the factorizations, proved by "forward"."""
            h.holds("the factorization asked for", type(self) is getattr(M, CLS[kind]))
            h.eq("of the diagonal blocks", self.A, A)
            h.eq("of the off-diagonal blocks", self.B, B)
            h.eq("right-hand side M X", v, flat(times(h, A, B, X)))
            return flat(X).clone()
        h.patch(CM, "LUFactorization.forward", forward)
    op = M.BidiagonalForwardOperator(A, B, inverse_operator=getattr(M, CLS[kind]))
    r = flat(times(h, A, B, X)).clone()
    inv = op.inverse()
    h.eq("forward of the solution is the right-hand side", op(inv(r)), r)
    h.eq("and with the same factorization again", op(inv(r)), r)
    h.eq("solution of a product is the vector", inv(op(flat(X).clone())), flat(X))


def blockmatrix(h, data, diags, n, b, p, upto=None):
    """The full matrix, entry by entry: block row k, block column k + d holds entry min(k, k + d) of diagonal d.
    upto = (position of the diagonal being written, number of its blocks written so far)."""
    T = h.torch
    k, l = T.arange(n)[:, None], T.arange(n)
    full = T.zeros((b, n, p, n, p))
    for q, (d, x) in enumerate(zip(diags, data)):
        if upto is not None and q > upto[0]:
            break
        pad = T.zeros((abs(d), b, p, p))
        wide = T.cat([pad, x]) if d < 0 else T.cat([x, pad])
        on = l - k == d
        if upto is not None and q == upto[0]:
            on = on & ((l if d <= 0 else k) < upto[1])
        full = full + T.where(on[None, :, None, :, None], wide.permute(1, 0, 2, 3)[:, :, :, None, :], 0.0)
    return full.reshape(b, n * p, n * p)


def dense_loop(h, n, b, p):
    """Inner loop of to_dense: the diagonals before d and the first k blocks of d are in place."""
    cls = "SquareBatchedBlockDiagonalMatrix.to_dense"

    def want(L, k):
        s = L["self"]
        q = [i for i, x in enumerate(s.data) if x is L["data"]][0]
        return blockmatrix(h, s.data, s.diags, n, b, p, (q, k))

    def inv(L, k):
        h.eq("blocks written so far", L["A"], want(L, k))

    def havoc(L, k):
        L["A"].copy_(want(L, k))
        return {}
    h.loop(CM, cls, 1, init=inv, havoc=havoc, check=inv, managed=lambda L: [L["A"]])


def dense(h, A, B, n, b, p):
    return blockmatrix(h, [A, B], [0, -1], n, b, p)


@contract(P, "SquareBatchedBlockDiagonalMatrix.to_dense", samples=30)
def c_dense(h):
    M = h.mod(CM)
    n, b, p, A, B, X = problem(h)
    dense_loop(h, n, b, p)
    h.eq("dense form", M.BidiagonalForwardOperator(A, B).to_diag().to_dense(), dense(h, A, B, n, b, p))


# offsets: numbers, or "+"/"-" for any offset above/below the main diagonal
ANY = (("+",), ("-",), (0, "+"), ("-", 0))


def offsets(h, diags):
    """The offsets and the number of blocks on the main diagonal."""
    known = [abs(d) for d in diags if isinstance(d, int)]
    n, out = h.dim("nblk", 1 + max(known) if len(known) == len(diags) else 2, 8), []
    for d in diags:
        if isinstance(d, str):
            far = h.dim("off", 1, 5)
            h.require(far < n)
            d = far if d == "+" else -far
        out.append(d)
    return out, n


def diag_data(h, diags, n, b, p):
    return [h.real(f"D{i}", (n - abs(d), b, p, p)) for i, d in enumerate(diags)]


@contract(P, "SquareBatchedBlockDiagonalMatrix", [dict(diags=d) for d in (
    (0,), (0, -1), (-1, 0), (0, 1), (-2, 0, 1), (2, -1)) + ANY], samples=20)
def c_diag(h, diags):
    """Any set of block diagonals: dense, COO and CSR forms agree with the definition."""
    M = h.mod(CM)
    diags, n = offsets(h, diags)
    b, p = h.dim("sbat", 1, 3), h.dim("sblk", 1, 3)
    data = diag_data(h, diags, n, b, p)
    want = blockmatrix(h, data, diags, n, b, p)
    dense_loop(h, n, b, p)
    m = M.SquareBatchedBlockDiagonalMatrix(data, list(diags))
    h.holds("size", (m.n == n * p) & (m.shape[0] == b) & (m.shape[1] == n * p) & (m.shape[2] == n * p))
    h.holds("number of nonzeros", m.nnz == sum(p * p * (n - abs(d)) for d in diags))
    h.eq("dense form", m.to_dense(), want)
    if h.sym:
        return
    h.eq("coordinate form", m.to_batched_coo().to_dense().permute(2, 0, 1), want)
    for i, c in enumerate(m.to_unrolled_csr()):
        h.eq("row form", c.to_dense(), want[i])


def entries(h, data, diags, p):
    """(rows, columns, values) of the nonzero entries: diagonal after diagonal, block after block, row by row."""
    T = h.torch
    R, C, V = [], [], []
    for d, x in zip(diags, data):
        m, b = x.shape[:2]
        k = T.arange(m)[:, None, None] + T.zeros((m, p, p))
        r, c = T.arange(p)[:, None], T.arange(p)
        R.append((((k - d if d < 0 else k) * p) + r).reshape(m * p * p))
        C.append((((k + d if d > 0 else k) * p) + c).reshape(m * p * p))
        V.append(x.permute(0, 2, 3, 1).reshape(m * p * p, b))
    return T.cat(R), T.cat(C), T.cat(V)


class Sparse:
    """A sparse tensor: the listed entries (no index twice, so nothing to merge)."""

    def __init__(self, inds, vals, size):
        self.i, self.v, self.size = inds, vals, size

    def coalesce(self):
        return self

    to_sparse_csr = coalesce

    def indices(self):
        return self.i

    def values(self):
        return self.v


@contract(P, "SquareBatchedBlockDiagonalMatrix.to_batched_coo", [dict(diags=d) for d in (
    (0,), (0, -1), (0, 1), (-1,), (1, 2)) + ANY], samples=20)
def c_coo(h, diags):
    """The entries of every block, at the rows and columns of the block; the row form has the same entries."""
    M = h.mod(CM)
    T = h.torch
    diags, n = offsets(h, diags)
    b, p = h.dim("sbat", 1, 3), h.dim("sblk", 1, 3)
    data = diag_data(h, diags, n, b, p)
    m = M.SquareBatchedBlockDiagonalMatrix(list(data), list(diags))
    if not h.sym:
        want = blockmatrix(h, data, diags, n, b, p)
        h.eq("coordinate form", m.to_batched_coo().to_dense().permute(2, 0, 1), want)
        for i, c in enumerate(m.to_unrolled_csr()):
            h.eq("row form", c.to_dense(), want[i])
        return
    order = list(range(len(diags)))
    if len(diags) > 1 and diags[1] < diags[0]:
        order = order[::-1]
    rows_, cols, vals = entries(h, [data[k] for k in order], [diags[k] for k in order], p)
    starts, tot = {}, 0
    for k in order:
        starts[id(data[k])] = tot
        tot = tot + (n - abs(diags[k])) * p * p

    def before(L):
        return starts[id(L["bdata"])]

    def coo(inds, data, dtype=None, device=None, size=None):
        """Contract of torch.sparse_coo_tensor."""
        if len(data.shape) == 1:
            h.eq("row form: rows", inds[0], rows_)
            h.eq("row form: columns", inds[1], cols)
            h.holds("row form: size", (len(size) == 2) and (size[0] == n * p) & (size[1] == n * p))
        else:
            h.eq("rows", inds[0], rows_)
            h.eq("columns", inds[1], cols)
            h.eq("values", data, vals)
            h.holds("size", (size[0] == n * p) & (size[1] == n * p) & (size[2] == b))
        return Sparse(inds, data, size)
    h.torch_stub("sparse_coo_tensor", coo)

    def done(c, x, shape):
        return T.where((T.arange(tot) < c).reshape((tot,) + (1,) * (len(shape) - 1)), x, 0.0)

    def inv(L, i):
        c = before(L) + i * p * p
        h.holds("entries so far", L["c"] == c)
        h.eq("rows so far", L["inds"][0], done(c, rows_, (tot,)))
        h.eq("columns so far", L["inds"][1], done(c, cols, (tot,)))
        h.eq("values so far", L["data"], done(c, vals, (tot, b)))

    def havoc(L, i):
        c = before(L) + i * p * p
        L["inds"][0] = done(c, rows_, (tot,))
        L["inds"][1] = done(c, cols, (tot,))
        L["data"].copy_(done(c, vals, (tot, b)))
        return dict(c=c)
    h.loop(CM, "SquareBatchedBlockDiagonalMatrix.to_batched_coo", 1, init=inv, havoc=havoc, check=inv,
           managed=lambda L: [L["inds"], L["data"]])
    x = m.to_batched_coo()
    h.holds("coordinate form is the sparse tensor", isinstance(x, Sparse))
    ms = m.to_unrolled_csr()
    h.holds("one row form per sample", h.seq_len(ms) == b)
    i = h.idx("sample", b)
    h.eq("row form: values", ms[i].values(), vals[:, i])


@contract(P, "ChunkTimeOperatorSolverContext.solve", [dict(method=m, kind=k) for m, k in (
    ("dense", "thomas"), ("direct", "thomas"), ("direct", "pcr"), ("direct", "hybrid"))], samples=20)
def c_context(h, method, kind):
    M = h.mod(CM)
    n, b, p, A, B, X = problem(h)
    loops(h, kind, dict(X=X, v=times(h, A, B, X), A=A, B=B))
    if h.sym and method == "dense":
        dense_loop(h, n, b, p)

        def solve_ex(a, y):
            """Contract of torch.linalg.solve_ex: x with a x = y."""
            h.eq("matrix of the dense solve", a, dense(h, A, B, n, b, p))
            h.eq("right-hand side of the dense solve", y, flat(times(h, A, B, X)))
            return flat(X).clone(), None
        h.torch_stub("linalg.solve_ex", solve_ex)
    op = M.BidiagonalForwardOperator(A, B, inverse_operator=getattr(M, CLS[kind]))
    r = flat(times(h, A, B, X)).clone()
    r0 = r.clone()
    x = M.ChunkTimeOperatorSolverContext(method).solve(op, r)
    h.eq("exact solution", rows(x, n, b, p), X)
    h.eq("right-hand side unchanged", r, r0)
    h.eq("operator unchanged", op.A, A)
    h.eq("operator unchanged (off diagonal)", op.B, B)


@contract(P, "BidiagonalPCRFactorization._solve_block", samples=20,
          internal={CM + ":BidiagonalPCRFactorization._solve_block": 5, CM + ":BidiagonalPCRFactorization._cyclic_shift": 2})
def c_block(h):
    """A block of 2^m rows whose first row is decoupled: all rows become decoupled.

    Invariant of the reduction, s = 2^i: row r is A_r X_r + B_r X_{r-s} (the second part only when r >= s),
    whatever B now is; the views list the rows p, p + s, p + 2 s, ... of the block in place."""
    M = h.mod(CM)
    T = h.torch
    h.layouts = False       # an internal step, on contiguous data
    m = h.dim("m", 0, 4)
    n = 2 ** m
    b, p = h.dim("sbat", 1, 3), h.dim("sblk", 1, 3)
    A = h.real("A", (n, b, p, p), con=(-0.4, 0.4))
    if not h.sym:
        A += 1.5 * T.eye(p)
        h.inputs[-1] = ("A", A, A.clone())
    B = h.real("B", (n, b, p, p), con=(-0.8, 0.8))
    X = h.real("X", (n, b, p))
    h.noframe.add("B")
    AX = (A * X.unsqueeze(-2)).sum(-1)

    def state(Bnow, s):
        return (AX + (Bnow * h.shift(X, s).unsqueeze(-2)).sum(-1)).unsqueeze(-1)
    lu, piv, _ = T.linalg.lu_factor_ex(A)
    v = state(B, 1).clone()
    if h.sym:
        def init(L, i):
            h.eq("the block starts with its first row decoupled", v, state(B, 1))
            for nm, x in (("lu", lu), ("pivots", piv), ("B", B), ("v", v)):
                h.holds(f"{nm} starts as the whole block", h.same_view(L[nm], x.unsqueeze(0)))

        def havoc(L, i):
            h.havoc(B, "B")
            v.copy_(state(B, 2 ** i))
            return dict(lu=h.rowview(lu, i, m), pivots=h.rowview(piv, i, m), B=h.rowview(B, i, m), v=h.rowview(v, i, m))

        def check(L, i2):
            i = i2 - 1
            h.eq("rows after a reduction step", h.rowview(v, i, m), h.rowview(state(B, 2 ** i2), i, m))
            for nm, x in (("lu", lu), ("pivots", piv), ("B", B), ("v", v)):
                h.holds(f"{nm} lists the rows at twice the distance", h.same_view(L[nm], h.rowview(x, i2, m)))
        h.loop(CM, "BidiagonalPCRFactorization._solve_block", 0, init=init, havoc=havoc, check=check,
               managed=lambda L: [v, B], index=(0, 1, m))
    f = M.BidiagonalPCRFactorization(A, B[1:])
    Bn, vn = f._solve_block(lu, piv, B, v)
    h.eq("rows decoupled", vn.squeeze(-1), AX[1:])
    h.eq("in place", v.squeeze(-1), AX)
    h.shape("reduced off-diagonal blocks", Bn, (n - 1, b, p, p))


class Tail(list):
    """A list of which only the last entry is known; new entries may be appended."""

    def _no(self, *a, **k):
        raise NotImplementedError("only the end of the list is described by the loop contract")
    __iter__ = __len__ = __contains__ = __add__ = __eq__ = __reversed__ = _no
    insert = pop = remove = index = count = sort = reverse = extend = clear = copy = _no

    def new(self):
        return list.__len__(self) - 1

    def __getitem__(self, k):
        if not (isinstance(k, int) and k == -1):
            self._no()
        return list.__getitem__(self, k)

    def __setitem__(self, *a):
        self._no()

    def last(self, k):
        return list.__getitem__(self, k)


def power_of_two(x):
    return x == 2 ** (x.bit_length() - 1)


@contract(P, "BidiagonalPCRFactorization._pow2", samples=60, internal={CM + ":BidiagonalPCRFactorization._pow2": 1})
def c_pow2(h):
    """The blocks [start, end) cover all rows; each starts at the last row of the one before and its size is a
    power of two."""
    M = h.mod(CM)
    n = h.dim("nblk", 1, 200)
    f = M.BidiagonalPCRFactorization._pow2
    if h.sym:
        def init(L, _):
            h.holds("one block so far", len(L["start"]) == 1 and len(L["end"]) == 1)
            s, e = L["start"][0], L["end"][0]
            h.holds("the first block starts with the first row", s == 0)
            h.holds("its size is a power of two", power_of_two(e - s))
            h.holds("rows left", (e >= 1) & (e <= n))
            h.holds("number of rows left", L["left"] == n - e)

        def havoc(L, _):
            h.e0 = h.int("e0", 1)
            h.require(h.e0 <= n)
            return dict(start=Tail([h.int("s0", 0)]), end=Tail([h.e0]), left=n - h.e0)

        def check(L, _):
            h.holds("one more block", L["start"].new() == 1 and L["end"].new() == 1)
            s, e = L["start"].last(1), L["end"].last(1)
            h.holds("it starts at the last row of the one before", s == h.e0 - 1)
            h.holds("its size is a power of two", power_of_two(e - s))
            h.holds("and at least two", e - s >= 2)
            h.holds("rows left", e <= n)
            h.holds("number of rows left", L["left"] == n - e)
        h.loop(CM, "BidiagonalPCRFactorization._pow2", 0, init=init, havoc=havoc, check=check,
               roles=dict(left=lambda L: n - L["end"][0]))
        s, e = f(n)
        if isinstance(e, Tail):
            h.holds("the last block ends with the last row", e[-1] == n)
        return
    s, e = f(n)
    h.holds("as many starts as ends", len(s) == len(e) and len(s) > 0)
    h.holds("the first block starts with the first row", s[0] == 0)
    h.holds("the last block ends with the last row", e[-1] == n)
    h.holds("sizes are powers of two", all(power_of_two(b - a) for a, b in zip(s, e)))
    h.holds("blocks overlap in one row", all(a == b - 1 for a, b in zip(s[1:], e)))
    h.holds("blocks grow", all(b - a >= 2 for a, b in zip(s[1:], e[1:])))


@contract(P, "BidiagonalHybridFactorization._pcr_blocks", samples=60,
          internal={CM + ":BidiagonalHybridFactorization._pcr_blocks": 1, CM + ":BidiagonalPCRFactorization._pow2": 1})
def c_pcr_blocks(h):
    """The leading blocks of _pow2 (or none), and the number of rows they cover (or one)."""
    M = h.mod(CM)
    n, ms = h.dim("nblk", 1, 200), h.dim("ms", 0, 30)
    b = {}

    def pow2(m):
        h.holds("blocks of all rows", m == n)
        b["b"] = Blocks(h, n)
        return b["b"].start, b["b"].end
    h.patch(CM, "BidiagonalPCRFactorization._pow2", staticmethod(pow2))
    A = h.real("A", (n, 1, 1, 1), con=(1, 2))
    f = M.BidiagonalHybridFactorization(A, h.real("B", (n - 1, 1, 1, 1)), min_size=ms)
    s, e, last = f._pcr_blocks()
    if not h.sym:
        s0, e0 = f._pow2(n)
        h.holds("leading blocks", s == s0[:len(s)] and e == e0[:len(s)])
        h.holds("rows covered", last == (e[-1] if e else 1))
        return
    if not h.is_seq(s):
        h.holds("no block", len(s) == 0 and len(e) == 0)
        h.holds("the first row needs no reduction", last == 1)
        return
    b, cnt = b["b"], h.seq_len(s)
    h.holds("at least one and at most all blocks", (cnt >= 1) & (cnt <= b.cnt) & (h.seq_len(e) == cnt))
    j = h.idx("j", cnt)
    h.holds("the leading blocks", (s.item(j) == b.start.item(j)) & (e.item(j) == b.end.item(j)))
    h.holds("rows covered", last == b.end.item(cnt - 1))
