"""C02: index maps between matrix/tensor cells and flattened positions are
mutually inverse bijections that agree with the layouts they describe."""
import itertools
import math

import numpy as np


def run(rep, tier):
    from pystatsm.utilities import indexing_utils as iu
    from pystatsm.utilities import linalg_operations as lo
    from pystatsm.utilities import ordered_indices as oi
    big = tier == "thorough"
    N = 14 if big else 8

    a = np.array([0, 1])
    rep.warm(lambda: (iu.lex_index_forward(a, a + 2), iu.lex_index_reverse(1, (2, 2)), iu.colex_index_forward(a, a + 2),
                      iu.colex_index_reverse(1, (2, 2)), iu.colex_ascending_indices_forward(a),
                      iu.colex_ascending_indices_reverse(1, (2, 2)), iu.colex_descending_indices_forward(a),
                      iu.colex_descending_indices_reverse(1, (2, 2)), iu.comb_numba(3, 2)))

    def mat(ck):
        n = ck.choose("n", range(1, N + 1))
        X = ck.rng("X").normal(size=(n, n))
        vechX = np.array([X[i, j] for j in range(n) for i in range(j, n)])
        veclX = np.array([X[i, j] for j in range(n) for i in range(j + 1, n)])
        what = ck.choose("map", ["vech", "vecl", "tri", "diag", "inv_tril", "mats", "sizes"])
        if what == "vech":
            for k in range(len(vechX)):
                i, j = iu.vech_inds_reverse(k, n)
                ck.expect("vech/rev", 0 <= j <= i < n and X[i, j] == vechX[k], f"n={n} k={k}->{i, j}")
                ck.eq("vech/fwd", iu.vech_inds_forwards(i, j, n), k)
            ii, jj = iu.vech_inds_reverse(np.arange(len(vechX)), n)
            ck.eq("vech/rev-array", X[ii, jj], vechX)
            ck.eq("vech/fwd-array", iu.vech_inds_forwards(ii, jj, n), np.arange(len(vechX)))
            ck.eq("vech/diag", vechX[iu.vech_diag_indices(n)], np.diag(X))
            for k in range(n):
                ck.eq("vech/diagk", vechX[iu.vech_diag_indices_forward(k, n)], X[k, k])
            a, b = lo.hv_indices((n, n))
            ck.eq("vech/hv_indices", X[a, b], vechX)
        elif what == "vecl":
            for k in range(len(veclX)):
                i, j = iu.vecl_inds_reverse(k, n)
                ck.expect("vecl/rev", 0 <= j < i < n and X[i, j] == veclX[k], f"n={n} k={k}->{i, j}")
                ck.eq("vecl/fwd", iu.vecl_inds_forwards(i, j, n), k)
            ck.eq("vecl/mask", X.reshape(-1, order="F")[iu.vecl_inds(n)], veclX)
            a, b = lo.lhv_indices((n, n))
            ck.eq("vecl/lhv_indices", X[a, b], veclX)
        elif what == "tri":
            # with a distinct number of columns and a diagonal offset
            m = ck.choose("m", [None] + list(range(1, min(n + 3, 7))))
            k = ck.choose("k", range(-2, 3))
            order = ck.choose("order", "FC")
            mm = n if m is None else m
            cells = [(i, j) for i in range(n) for j in range(mm)] if order == "C" else [(i, j) for j in range(mm) for i in range(n)]
            for f, keep in ((iu.tril_indices, lambda i, j: j <= i + k), (iu.triu_indices, lambda i, j: j >= i + k)):
                r, c = f(n, k=k, m=m, order=order)
                want = [x for x in cells if keep(*x)]
                ck.eq(f"{f.__name__[:4]}/{order}", np.array([r, c]).T.reshape(-1, 2), np.array(want).reshape(-1, 2))
        elif what == "diag":
            k = ck.choose("k", range(-n + 1, n))
            r, c = iu.diag_indices(n, k)
            ck.eq("diag", np.asarray(X[r, c]), np.diag(X, k))
        elif what == "inv_tril":
            order, k, base = ck.choose("order", "FC"), ck.choose("k", [0, -1]), ck.choose("base", [0, 1, 5])
            A = ck.must("inv_tril", iu.inv_tril_indices, n, k=k, order=order, indexing=base)
            r, c = iu.tril_indices(n, k=k, order=order)
            for q, (i, j) in enumerate(zip(r, c)):
                ck.expect("inv_tril/pos", A[i, j] == q + base and A[j, i] == q + base,
                          f"n={n} cell {(i, j)} -> {A[i, j]},{A[j, i]} expected {q + base}")
        elif what == "mats":
            r, c = iu.elimination_matrix_indices(n)
            E = np.zeros((len(vechX), n * n))
            E[r, c] = 1
            S = X + X.T
            vechS = np.array([S[i, j] for j in range(n) for i in range(j, n)])
            ck.eq("elim", E @ X.reshape(-1, order="F"), vechX)
            r, c = iu.duplication_matrix_indices(n)
            ck.expect("dup/unique", len(set(zip(r, c))) == n * n == len(r))
            D = np.zeros((n * n, len(vechX)))
            D[r, c] = 1
            ck.eq("dup", D @ vechS, S.reshape(-1, order="F"))
        else:
            h, l = n * (n + 1) // 2, n * (n - 1) // 2
            ck.eq("sizes/h", [lo.mat_size_to_hv_size(n), lo.hv_size_to_mat_size(h)], [h, n])
            ck.eq("sizes/l", [lo.mat_size_to_lhv_size(n), lo.lhv_size_to_mat_size(l)], [l, n])
            for k in range(h, h + n + 1):
                ck.eq("largest_triangular", iu.largest_triangular(k), n)
            if n == N:
                for q in range(1, 400):
                    hh = q * (q + 1) // 2
                    ck.eq("sizes/big", [lo.hv_size_to_mat_size(hh), lo.lhv_size_to_mat_size(q * (q - 1) // 2)], [q, q])
                for q in (1, 10, 1000, 10 ** 5, 10 ** 6):
                    t = q * (q + 1) // 2
                    ck.eq("largest_triangular/big", [iu.largest_triangular(t - 1), iu.largest_triangular(t)], [q - 1, q])
    rep.explore("square", mat)

    def rect(ck):
        m, n = ck.choose("m", range(1, 7)), ck.choose("n", range(1, 7))
        X = np.arange(m * n).reshape(m, n, order="F")
        what = ck.choose("map", ["vec", "commutation", "kron"])
        if what == "vec":
            for k in range(m * n):
                r, s = iu.vec_inds_reverse(k, m)
                ck.expect("vec/rev", X[r, s] == k, f"{m, n, k}->{r, s}")
                ck.eq("vec/fwd", iu.vec_inds_forwards(r, s, m), k)
        elif what == "commutation":
            a, b = iu.commutation_matrix_indices(m, n)
            K = np.zeros((m * n, m * n))
            K[a, b] = 1
            ck.eq("commutation", K @ X.reshape(-1, order="F"), X.T.reshape(-1, order="F"))
        else:
            p, q = ck.choose("p", range(1, 4)), ck.choose("q", range(1, 4))
            A = ck.rng("A").normal(size=(m, n))
            B = ck.rng("B").normal(size=(p, q))
            C = np.kron(A, B)
            for i, j in np.ndindex(*C.shape):
                (r, s), (t, u) = iu.kronecker_indices_forward(i, j, p, q)
                ck.close("kron/fwd", C[i, j], A[r, s] * B[t, u], 1e-14)
                ck.eq("kron/rev", iu.kronecker_indices_reverse(r, s, t, u, p, q), (i, j))
    rep.explore("rectangular", rect)

    shapes = [s for d in (1, 2, 3, 4) for s in itertools.product(range(1, 5 if d < 4 or big else 3), repeat=d)]

    def tensor(ck):
        shape = ck.choose("shape", shapes)
        cells = list(itertools.product(*[range(s) for s in shape]))
        if len(shape) >= 2:
            colex = sorted(cells, key=lambda x: x[::-1])
            for k, c in enumerate(cells):
                ck.eq("lex/fwd", iu.lex_index_forward(np.array(c), np.array(shape)), k)
                ck.eq("lex/rev", iu.lex_index_reverse(k, shape), c)
            for k, c in enumerate(colex):
                ck.eq("colex/fwd", iu.colex_index_forward(np.array(c), np.array(shape)), k)
                ck.eq("colex/rev", iu.colex_index_reverse(k, shape), c)
        asc = [c for c in cells if all(x <= y for x, y in zip(c, c[1:]))]
        ck.expect("ascending", [tuple(x) for x in iu.ascending_indices(shape)] == asc)
        ck.expect("ascending/gen", [tuple(x) for x in iu.ascending_indices_generator(shape)] == asc)
        ck.expect("ascending/ext", [tuple(x) for x in oi.ascending_indices(shape)] == asc)
        desc = [c for c in cells if all(x >= y for x, y in zip(c, c[1:]))]
        ck.expect("descending/ext", [tuple(x) for x in oi.descending_indices(shape)] == desc[::-1])
        for up, strict, ff in itertools.product([True, False], repeat=3):
            cmp = {(1, 0): lambda x, y: x <= y, (1, 1): lambda x, y: x < y,
                   (0, 0): lambda x, y: x >= y, (0, 1): lambda x, y: x > y}[(int(up), int(strict))]
            want = [c for c in cells if all(cmp(x, y) for x, y in zip(c, c[1:]))]
            if not ff:
                want = sorted(want, key=lambda x: x[::-1])
            got = [tuple(x) for x in oi.generate_indices(shape, up, ff, strict)]
            ck.expect("generate", got == want, f"{shape} up={up} strict={strict} first={ff}: {got}")
    rep.explore("tensor", tensor)

    def sym(ck):
        d, p = ck.choose("order", [1, 2, 3, 4]), ck.choose("dim", [1, 2, 3, 4])
        asc = sorted(itertools.combinations_with_replacement(range(p), d), key=lambda c: c[::-1])
        desc = [c[::-1] for c in asc]
        for k, c in enumerate(asc):
            ck.eq("asc/fwd", iu.colex_ascending_indices_forward(np.array(c)), k)
            ck.eq("asc/fwd2", iu.ascending_indices_forward(np.array(c)), k)
            ck.eq("asc/rev", iu.colex_ascending_indices_reverse(k, (p,) * d), c)
            ck.eq("asc/rev2", iu.ascending_indices_reversed(k, d, p), c)
            for perm in set(itertools.permutations(c)):
                ck.eq("asc/symmetric", iu.colex_ascending_indices_forward(np.array(perm)), k)
        for k, c in enumerate(desc):
            ck.eq("desc/fwd", iu.colex_descending_indices_forward(np.array(c)), k)
            ck.eq("desc/rev", iu.colex_descending_indices_reverse(k, (p,) * d), c)
        lex = list(itertools.combinations_with_replacement(range(p), d))
        vals = ck.rng().normal(size=(2, len(lex)))
        T = iu.fill_tensor(vals, (p,) * d)
        for k, c in enumerate(lex):
            for perm in itertools.permutations(c):
                ck.eq("fill", T[(slice(None),) + perm], vals[:, k])
        for n in range(0, 8):
            for k in range(0, 8):
                ck.eq("comb", iu.comb_numba(n, k), math.comb(n, k))
        for c in lex:
            got = [tuple(x) for x in map(list, iu.multiset_permutations(list(c)))]
            ck.expect("multiset", sorted(got) == sorted(set(itertools.permutations(c))), f"{c}: {got}")
    rep.explore("symmetric-tensor", sym)

    def match(ck):
        n = ck.choose("n", [1, 2, 3, 4])
        x = np.array(ck.choose("x", list(itertools.permutations(range(5), n))))
        m = ck.choose("m", [1, 2, 3])
        y = np.array(ck.choose("y", list(itertools.product(range(5), repeat=m))))
        got = iu.array_match(x, y)
        ck.eq("match", got, [list(x).index(v) for v in y if v in x], msg=f"x={x} y={y}")
        mk = iu.array_match(x, y, mask=True)
        ck.eq("match/mask", np.ma.getmaskarray(mk), [v not in x for v in y])
        ck.eq("match/vals", np.asarray(mk.compressed()), [list(x).index(v) for v in y if v in x])
    rep.explore("match", match)

    def uniq(ck):
        n = ck.choose("n", [1, 2, 3, 4, 5] + ([6] if big else []))
        x = np.array(ck.choose("x", list(itertools.product(range(4), repeat=n))))
        u, inv, ind = iu.unique(x)
        want = list(dict.fromkeys(x.tolist()))
        ck.eq("unique/u", u, want)
        ck.eq("unique/inv", np.asarray(u)[inv], x)
        ck.eq("unique/ind", x[ind], want)
        ck.eq("unique/first", ind, [x.tolist().index(v) for v in want])
        if n in (2, 4, 6):
            a = (x % 2).reshape(2, -1)
            nz = iu.nonzero(a, as_tuple=True)
            ck.eq("nonzero", np.array(nz).T.reshape(-1, 2),
                  np.array([(i, j) for j in range(a.shape[1]) for i in range(2) if a[i, j]]).reshape(-1, 2))
    rep.explore("unique", uniq)

    def grid(ck):
        a = ck.choose("lens", [(1,), (2,), (1, 2), (2, 3), (3, 2), (2, 2, 2), (2, 3, 2), (1, 3, 2, 2)])
        order = ck.choose("indexing", ["xy", "ij"])
        xs = [np.arange(k) * 10 ** i for i, k in enumerate(a)]
        got = iu.flat_mgrid(*xs, indexing=order)
        want = [g.ravel() for g in np.meshgrid(*xs, indexing=order)]
        for g, w in zip(got, want):
            ck.eq("mgrid", g, w)
        ck.expect("mgrid/product", sorted(zip(*[g.tolist() for g in got]))
                  == sorted(itertools.product(*[x.tolist() for x in xs])))
    rep.explore("grid", grid)
