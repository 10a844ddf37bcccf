"""C01: the compiled sparse kernels agree with dense algebra on every sparsity
pattern, write only inside the buffers they are given, and re-using an output
leaves no trace of what it held before."""
import itertools

import numpy as np
import scipy.sparse as ss


def _mask(bits, shape):
    return np.array([(bits >> k) & 1 for k in range(shape[0] * shape[1])], bool).reshape(shape)


def _mat(mask, rng, cplx=False):
    v = rng.uniform(0.5, 2.0, mask.shape) * rng.choice([-1.0, 1.0], mask.shape)
    if cplx:
        v = v + 1j * rng.uniform(0.5, 2.0, mask.shape)
    return v


def _csc(mask, val):
    """csc with exactly the pattern `mask` (explicit storage)"""
    r, c = np.nonzero(mask.T)[::-1]
    indptr = np.r_[0, np.cumsum(mask.sum(0))].astype(np.int32)
    return ss.csc_array((val[r, c].copy(), r.astype(np.int32), indptr), shape=mask.shape)


def _dense(mask, val):
    return np.where(mask, val, 0.0)


PAD, CANARY = 5, -7.25


class Guarded:
    """array embedded in a larger one; `intact` tells whether anything outside
    was written"""

    def __init__(self, n, dtype, fill):
        self.big = np.full(n + 2 * PAD, CANARY if dtype == np.double else -7, dtype=dtype)
        self.a = self.big[PAD:PAD + n]
        self.a[...] = fill
        self.c = self.big[0]

    def intact(self):
        return np.all(self.big[:PAD] == self.c) and np.all(self.big[PAD + len(self.a):] == self.c)


def _valid_csc(ck, key, Cp, Ci, nr, want_mask, sorted_=True):
    nc = want_mask.shape[1]
    ck.eq(key + "/indptr", np.asarray(Cp), np.r_[0, np.cumsum(want_mask.sum(0))])
    ok = True
    for j in range(nc):
        rows = np.asarray(Ci[Cp[j]:Cp[j + 1]])
        w = np.nonzero(want_mask[:, j])[0]
        ok &= np.array_equal(rows if sorted_ else np.sort(rows), w)
    ck.expect(key + "/indices", ok, lambda: f"indices {Ci} for pattern {want_mask.astype(int).tolist()}")


def run(rep, tier):
    from pystatsm.utilities import python_wrappers as pw
    big = tier == "thorough"
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 2)] + ([(2, 3), (3, 1)] if big else [])

    # ---------------------------------------------------------------- kron
    def kron(ck):
        sa = ck.choose("A.shape", shapes)
        sb = ck.choose("B.shape", shapes)
        am = _mask(ck.choose("A.pattern", range(1, 2 ** (sa[0] * sa[1]))), sa)
        bm = _mask(ck.choose("B.pattern", range(1, 2 ** (sb[0] * sb[1]))), sb)
        rng = ck.rng()
        av, bv = _mat(am, rng), _mat(bm, rng)
        A, B = _csc(am, av), _csc(bm, bv)
        Ad, Bd = _dense(am, av), _dense(bm, bv)
        full_a, full_b = np.ones(sa, bool), np.ones(sb, bool)
        for key, f, fin, x, y, xm, ym, xd, yd in (
                ("ss", pw.sparse_kron, pw.sparse_kron_inplace, A, B, am, bm, Ad, Bd),
                ("ds", pw.ds_kron, pw.ds_kron_inplace, np.asfortranarray(av), B, full_a, bm, av, Bd),
                ("sd", pw.sparse_dense_kron, pw.sparse_dense_kron_inplace, A, np.asfortranarray(bv), am, full_b, Ad, bv),
                ("dss", pw.dense_sparse_kron, None, av, B, full_a, bm, av, Bd)):
            want, wm = np.kron(xd, yd), np.kron(xm, ym).astype(bool)
            C = ck.must(key, f, x, y)
            ck.expect(key + "/shape", C.shape == want.shape, f"{C.shape}")
            ck.close(key + "/value", C.toarray(), want, 1e-13)
            _valid_csc(ck, key, C.indptr, C.indices, want.shape[0], wm)
            # caller supplied buffers, holding garbage, inside guarded memory
            gx = Guarded(C.nnz, np.double, 3.5)
            gi, gp = Guarded(C.nnz, np.int32, 1), Guarded(len(C.indptr), np.int32, 1)
            gp.a[0] = 0          # a compressed column pointer starts at zero
            out = ck.must(key + "/out", f, x, y, out=(gx.a, gi.a, gp.a))
            ck.expect(key + "/out/guard", gx.intact() and gi.intact() and gp.intact(), "wrote outside the buffers")
            ck.expect(key + "/out/same", np.array_equal(gx.a, C.data) and np.array_equal(gi.a, C.indices)
                      and np.array_equal(gp.a, C.indptr), "caller-supplied buffers differ from fresh result")
            # sparse output object re-used with other numbers
            D = C.copy()
            D.data[:] = 99.0
            D2 = ck.must(key + "/reuse", f, x, y, out=D)
            ck.close(key + "/reuse/value", D2.toarray(), want, 1e-13)
            if fin is not None:
                D = C.copy()
                D.data[:] = -4.0
                D3 = ck.must(key + "/inplace", fin, x, y, D)
                ck.close(key + "/inplace/value", D3.toarray(), want, 1e-13)
                ck.expect(key + "/inplace/pattern", np.array_equal(D3.indices, C.indices)
                          and np.array_equal(D3.indptr, C.indptr))
                x2 = x * 2.0
                D4 = ck.must(key + "/inplace2", fin, x2, y, D)
                ck.close(key + "/inplace2/value", D4.toarray(), 2 * want, 1e-13)
                if key != "ss":
                    gx = Guarded(C.nnz, np.double, 2.0)
                    fin(x, y, gx.a)
                    ck.expect(key + "/inplace/guard", gx.intact(), "wrote outside the buffer")
                    ck.close(key + "/inplace/array", gx.a, C.data, 1e-13)
        ck.expect("inputs-untouched", np.array_equal(A.data, _csc(am, av).data)
                  and np.array_equal(B.data, _csc(bm, bv).data), "an input was modified")
        for m in (1, 2, 3):
            want = np.kron(np.eye(m), Bd)
            K = ck.must("id", pw.id_sp_kron, m, B)
            ck.close("id/value", K.toarray(), want, 1e-13)
            _valid_csc(ck, "id", K.indptr, K.indices, want.shape[0], np.kron(np.eye(m), bm).astype(bool))
            K.data[:] = 5.0
            K2 = ck.must("id/inplace", pw.id_sp_kron_inplace, m, B, K)
            ck.close("id/inplace/value", K2.toarray(), want, 1e-13)

    rep.explore("kron", kron)

    # ------------------------------------------------- add in place, histories
    coefs = [(1.0, 1.0), (1.0, -1.0), (0.5, 2.0), (0.0, 1.0)]

    def add(ck):
        shape = ck.choose("shape", [(2, 2), (3, 2), (1, 3), (3, 1)] + ([(2, 3), (3, 3)] if big else []))
        nb = shape[0] * shape[1]
        if nb <= 6:
            a = ck.choose("A", range(1, 2 ** nb))
            b = ck.choose("B", range(1, 2 ** nb))
        else:   # thorough 3x3: all symmetric patterns
            sym = [k for k in range(1, 512) if np.array_equal(_mask(k, shape), _mask(k, shape).T)]
            a, b = ck.choose("A", sym), ck.choose("B", sym)
        am, bm = _mask(a, shape), _mask(b, shape)
        cm = am | bm if ck.choose("C", ["union", "full"]) == "union" else np.ones(shape, bool)
        rng = ck.rng()
        v = _mat(am, rng)
        w = _mat(bm, rng)
        w = np.where(am & bm, v, w)          # common entries equal: alpha=-beta cancels exactly
        A, B, C = _csc(am, v), _csc(bm, w), _csc(cm, np.full(shape, 8.0))
        Ad, Bd = _dense(am, v), _dense(bm, w)
        Cz = _csc(cm, np.full(shape, 8.0) + 0j)
        for h in itertools.permutations(coefs, 2):
            for al, be in h:
                R = ck.must("add", pw.cs_add_inplace, A, B, C, al, be)
                ck.close("add/value", R.toarray(), al * Ad + be * Bd, 1e-13, msg=f"history {h}")
                ck.expect("add/pattern", R.nnz == cm.sum(), f"stored entries {R.nnz} of {cm.sum()} after {h}")
        for al, be in ((1.0 + 0.5j, 2.0 - 1j), (0.25j, 1.0 + 1j)):
            R = ck.must("addz", pw.cs_add_inplace_complex, _csc(am, v + 0j), _csc(bm, w * (1 + 1j)), Cz, al, be)
            R = R.toarray()
            want = al * Ad + be * (1 + 1j) * Bd
            ck.close("addz/re", R.real, want.real, 1e-13)
            ck.close("addz/im", R.imag, want.imag, 1e-13)

    rep.explore("add", add)

    # ----------------------------------------------------- matmul in place
    def matmul(ck):
        sa = ck.choose("A.shape", [(2, 2), (3, 2), (2, 3)] + ([(3, 3)] if big else []))
        sb = ck.choose("B.shape", [s for s in [(2, 2), (3, 2), (2, 3), (2, 1)] if s[0] == sa[1]])
        am = _mask(ck.choose("A", range(1, 2 ** (sa[0] * sa[1]))), sa)
        bm = _mask(ck.choose("B", range(1, 2 ** (sb[0] * sb[1]))), sb)
        cm = (am.astype(int) @ bm.astype(int)) > 0
        ck.require(cm.any())
        rng = ck.rng()
        C = _csc(cm, np.full(cm.shape, 6.0))
        if ck.flag("C flagged sorted"):
            C.sort_indices()
        for rep_ in range(3):
            av, bv = _mat(am, rng), _mat(bm, rng)
            R = ck.must("mm", pw.cs_matmul_inplace, _csc(am, av), _csc(bm, bv), C)
            ck.close("mm/value", R.toarray(), _dense(am, av) @ _dense(bm, bv), 1e-12)
            ck.eq("mm/indptr", R.indptr, np.r_[0, np.cumsum(cm.sum(0))])
            ck.expect("mm/sorted", all(np.all(np.diff(R.indices[R.indptr[j]:R.indptr[j + 1]]) > 0)
                                       for j in range(R.shape[1])), lambda: f"rows not ascending: {R.indices} {R.indptr}")
        ck.expect("mm/usable", np.allclose((R @ np.ones(R.shape[1])), R.toarray().sum(1)))
        if ck.flag("complex"):
            Cz = _csc(cm, np.full(cm.shape, 6.0) + 0j)
            for rep_ in range(2):
                av, bv = _mat(am, rng, True), _mat(bm, rng, True)
                R = ck.must("mmz", pw.cs_matmul_inplace_complex, _csc(am, av), _csc(bm, bv), Cz).toarray()
                want = _dense(am, av) @ _dense(bm, bv)
                ck.close("mmz/re", R.real, want.real, 1e-12)
                ck.close("mmz/im", R.imag, want.imag, 1e-12)

    rep.explore("matmul", matmul)

    # ----------------------------------------------------------- reductions
    def reductions(ck):
        kind = ck.choose("kind", ["dot", "trace", "block"])
        rng = ck.rng()
        if kind == "dot":
            n = ck.choose("n", [1, 2, 3, 4] + ([5, 6] if big else []))
            a, b = ck.choose("a", range(1, 2 ** n)), ck.choose("b", range(1, 2 ** n))
            am, bm = _mask(a, (n, 1)), _mask(b, (n, 1))
            av, bv = _mat(am, rng), _mat(bm, rng)
            want = float((_dense(am, av) * _dense(bm, bv)).sum())
            ck.close("dot", ck.must("dot", pw.sparse_dot, _csc(am, av), _csc(bm, bv)), want, 1e-13)
            ck.close("dot/acc", pw.sparse_dot(_csc(am, av), _csc(bm, bv), 2.5), want + 2.5, 1e-13)
        elif kind == "trace":
            sb = ck.choose("B.shape", [(1, 2), (2, 2), (3, 2), (2, 3)])
            n = sb[1]
            bm = _mask(ck.choose("B", range(1, 2 ** (sb[0] * n))), sb)
            cm = _mask(ck.choose("C", range(1, 2 ** (n * n))), (n, n))
            bv, cv = _mat(bm, rng), _mat(cm, rng)
            Bd, Cd = _dense(bm, bv), _dense(cm, cv)
            got = ck.must("trace", pw.sparse_pattern_trace, _csc(bm, bv), _csc(cm, cv))
            ck.close("trace", got, np.sum(Cd * (Bd.T @ Bd)), 1e-12)
        else:
            ng, nv = ck.choose("ng", [1, 2, 3]), ck.choose("nv", [1, 2])
            nc = ck.choose("nc", [1, 2] if ng * nv > 4 and not big else [1, 2, 3] if ng * nv <= 3 else [1, 2])
            nb = ng * nv * nc
            lm = _mask(ck.choose("L", range(1, 2 ** nb)), (ng * nv, nc))
            lv = _mat(lm, rng)
            Ld = _dense(lm, lv)
            L = ss.csr_array(_csc(lm, lv))
            L.sort_indices()
            want = sum(Ld[j * nv:(j + 1) * nv] @ Ld[j * nv:(j + 1) * nv].T for j in range(ng))
            ck.close("block", ck.must("block", pw.block_diag_self_dot, L, ng, nv), want, 1e-12)
            out = np.full((nv, nv), 11.0)
            pw.block_diag_self_dot(L, ng, nv, out)
            ck.close("block/reuse", out, want, 1e-12)

    rep.explore("reductions", reductions)

    # ------------------------------------------- coordinate -> compressed
    def coo(ck):
        shape = ck.choose("shape", [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)])
        cells = list(itertools.product(range(shape[0]), range(shape[1])))
        k = ck.choose("nnz", [1, 2, 3, 4] if not big else [1, 2, 3, 4, 5])
        ck.require(len(cells) ** k <= (1300 if not big else 8000))
        trip = [ck.choose("cell", cells) for _ in range(k)]
        r, c = np.array([t[0] for t in trip]), np.array([t[1] for t in trip])
        x = ck.rng().uniform(0.5, 2, k)
        M = ck.must("coo", pw.coo_to_csc, r, c, x, shape)
        want = np.zeros(shape)
        np.add.at(want, (r, c), x)
        ck.close("coo/value", M.toarray(), want, 1e-13)
        # stable: within a column the entries keep their input order
        order = [t for j in range(shape[1]) for t in range(k) if c[t] == j]
        (sh, nz, Bp, Bi, Bx) = pw.coo_to_csc(r, c, x, shape, return_array=False)
        ck.eq("coo/indptr", Bp, np.r_[0, np.cumsum(np.bincount(c, minlength=shape[1]))])
        ck.eq("coo/stable-data", Bx, x[order])
        ck.eq("coo/stable-rows", Bi, r[order])
        ck.expect("coo/meta", tuple(sh) == shape and nz == k)

    rep.explore("coo", coo)

    # ----------------------------------------------------- dense helpers
    def dense(ck):
        kind = ck.choose("kind", ["repeat", "matmul"])
        rng = ck.rng()
        if kind == "repeat":
            n, reps = ck.choose("n", range(1, 6)), ck.choose("reps", range(1, 6))
            x = rng.normal(size=n)
            z = x + 1j * rng.normal(size=n)
            ck.eq("tile", pw.tile_1d(x, reps), np.tile(x, reps))
            ck.eq("repeat", pw.repeat_1d(x, reps), np.repeat(x, reps))
            ck.eq("tilez", pw.tile_1d_complex(z, reps), np.tile(z, reps))
            for f, w in ((pw.tile_1d, np.tile(x, reps)), (pw.repeat_1d, np.repeat(x, reps))):
                g = Guarded(n * reps, np.double, 1.0)
                f(x, reps, out=g.a)
                ck.expect("repeat/guard", g.intact(), f"{f.__name__} wrote outside")
                ck.eq("repeat/out", g.a, w)
        else:
            n, m, k = (ck.choose(s, range(1, 6 if big else 5)) for s in "nmk")
            A, B = rng.normal(size=(n, m)), rng.normal(size=(m, k))
            for key, f in (("naive", pw.naive_matmul_inplace), ("naive2", pw.naive_matmul_inplace2)):
                ck.close(key, ck.must(key, f, A, B), A @ B, 1e-12)
                g = Guarded(n * k, np.double, 9.0)
                C = g.a.reshape(n, k)
                f(A, B, C)
                ck.close(key + "/out", C, A @ B, 1e-12)
                ck.expect(key + "/guard", g.intact(), "wrote outside")

    rep.explore("dense", dense)
    rep.assumptions += ["matrices have at least one stored entry (the typed buffers reject empty arrays)",
                        "in-place targets have a pattern that contains the result's pattern, as their callers prepare"]
