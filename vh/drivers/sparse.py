"""Sparse stochastic matrices and helpers (see spec/J_SparseMat.tla)."""
import pickle

import numpy as np
from scipy.sparse import csc_matrix, csr_matrix

from flowstab.sparse_stoch_mat import (
    SparseStochMat,
    inplace_csr_matmul_diag,
    inplace_csr_row_normalize,
    inplace_diag_matmul_csr,
    rebuild_nnz_rowcol,
    sparse_gram_matrix,
    sparse_matmul,
    sparse_outer,
)
from flowstab.temporal_network import (
    csc_row_normalize,
    numpy_rebuild_nnz_rowcol,
    remove_nnz_rowcol,
    set_to_ones,
    set_to_zeroes,
)

from ..enc import ints, mat, unmat, unr
from .net import _try


def kw(o, given, **default):
    """The arguments; some calls leave out those that have the default value."""
    return {k: v for k, v in given.items() if not (o.get("dflt") and default[k] == v and type(default[k]) is type(v))}


def make(n, x):
    sm = np.array(unmat(x["sm"])).reshape(len(x["nz"]), len(x["nz"])) if x["nz"] else np.zeros((0, 0))
    d = unr(x["d"])
    nz = np.array(x["nz"], dtype=np.int32)
    how = x["how"]
    small = csr_matrix(sm)
    dv = kw(x, dict(diag_val=d), diag_val=1.0)
    if how == "ctor":
        return SparseStochMat(n, small.data, small.indices, small.indptr, nz, **dv)
    if how == "small" and not x["nz"] and x.get("dflt"):
        return SparseStochMat.create_diag(n, **dv)
    if how == "small":
        return SparseStochMat.from_small_csr_matrix(n, small, nz, **dv)
    if how == "unsorted":
        # columns of every row in another order
        data, ind, ptr = [], [], [0]
        for i in range(len(nz)):
            js = [j for j in range(len(nz)) if sm[i, j] != 0][::-1]
            data += [sm[i, j] for j in js]
            ind += js
            ptr.append(len(ind))
        return SparseStochMat(n, np.array(data), np.array(ind), np.array(ptr), nz, **dv)
    full = np.eye(n) * d
    for a, i in enumerate(x["nz"]):
        for b, j in enumerate(x["nz"]):
            full[i, j] = sm[a, b]
    if how == "full_zeros":     # every entry stored, also the zeros
        F = csr_matrix(np.ones((n, n)))
        F.data[:] = full.ravel()
        return SparseStochMat.from_full_csr_matrix(F, nz_rowcols=nz if d == 1 else None, **dv)
    if how == "full_nz":
        return SparseStochMat.from_full_csr_matrix(csr_matrix(full), nz_rowcols=nz, **dv)
    return SparseStochMat.from_full_csr_matrix(csr_matrix(full), **dv)


def back(M):
    """Whatever an operation returned, as a sparse stochastic matrix."""
    if isinstance(M, SparseStochMat):
        return M
    M = csr_matrix(np.asarray(M.toarray() if hasattr(M, "toarray") else M))
    return SparseStochMat.from_full_csr_matrix(M)


def apply(o, S):
    A = S[o["i"] - 1]
    B = S[o["j"] - 1] if "j" in o else None
    op = o["op"]
    x = unr(o["x"]) if "x" in o else None
    if x is not None and o.get("int"):
        x = int(x)
    Bc = B.tocsr() if B is not None else None
    Ba = B.toarray() if B is not None else None
    if op == "add":
        return A + B
    if op == "addcsr":
        return A + Bc
    if op == "addarr":
        return A + Ba
    if op == "raddcsr":
        return Bc + A
    if op == "raddarr":
        return A.__radd__(Ba)
    if op == "sub":
        return A - B
    if op == "subcsr":
        return A - Bc
    if op == "subarr":
        return A - Ba
    if op == "rsubcsr":
        return Bc - A
    if op == "rsubarr":
        return A.__rsub__(Ba)
    if op == "mul":
        return A @ B
    if op == "mulcsr":
        return A @ Bc
    if op == "mularr":
        return A @ Ba
    if op == "rmulcsr":
        return Bc @ A
    if op == "rmularr":
        return A.__rmatmul__(Ba)
    if op == "scale":
        return A * x
    if op == "rscale":
        return x * A
    if op == "transpose":
        return A.transpose(**kw(o, dict(copy=o["flag"]), copy=False)) if "flag" in o else A.T
    if op == "subdiag":
        return A.sub_diag(**kw(o, dict(diag_val=x), diag_val=1.0))
    if op == "adddiag":
        return A.add_diag(**kw(o, dict(diag_val=x), diag_val=1.0))
    if op == "copy":
        return A.copy()
    if op == "dict":
        return SparseStochMat(**A.to_dict())
    if op == "pickle":
        return pickle.loads(pickle.dumps(A))
    if op == "fromfull":
        return SparseStochMat.from_full_csr_matrix(A.tocsr(), **kw(o, dict(diag_val=x), diag_val=1.0))
    if op == "norm":
        if o["flag"]:
            inplace_csr_row_normalize(A, **kw(o, dict(row_sum=x), row_sum=1.0))
        else:
            A.inplace_row_normalize(**kw(o, dict(row_sum=x), row_sum=1.0))
        return None
    if op == "zero":
        how = kw(o, dict(tol=unr(o["tol"]), relative=o["rel"], use_absolute_value=o["abs"]),
                 tol=1e-8, relative=True, use_absolute_value=False)
        if o["flag"]:
            set_to_zeroes(A, **how)
        else:
            A.set_to_zeroes(**how)
        return None
    raise KeyError(op)


def observe_chain(sc):
    n = sc["n"]
    S = [make(n, x) for x in sc["init"]]
    start = [mat(s) for s in S]
    obs = []

    def shared():
        """Nodes stored in the first two matrices."""
        a, b = S[0].nz_rowcols, S[1].nz_rowcols
        return [ints(a), ints(b), int(S[0].check_nz_intersect_len(S[1]))]
    for o in sc["ops"]:
        def one(o=o):
            res = apply(o, S)
            if res is not None:
                S[o["k"] - 1] = back(res)
            assert all(tuple(s.shape) == (n, n) for s in S)
            return dict(regs=[mat(s) for s in S], shared=shared())
        b = _try(one)
        obs.append(b)
        if b["raised"]:
            break
    return dict(start=start, obs=obs)


def observe_helper(sc):
    op = sc["op"]
    A = unmat(sc["A"]) if "A" in sc else None
    B = unmat(sc["B"]) if "B" in sc else None
    v = np.array([unr(x) for x in sc["v"]]) if "v" in sc else None
    fmt = csc_matrix if sc.get("csc") else csr_matrix
    out = {}
    loud = dict(verbose=True, log_message="x" if sc.get("messy") else "") if sc.get("loud") else {}
    if op in ("outer", "outer_triu"):
        x = csr_matrix(v.reshape(1, -1))
        if sc.get("messy"):         # also the zeros, and in another order
            x = csr_matrix((v[::-1].copy(), np.arange(len(v))[::-1].copy(), [0, len(v)]), shape=(1, len(v)))
        res = sparse_outer(x, **kw(sc, dict(use_mkl=sc["mkl"], triu=sc["triu"]), use_mkl=True, triu=True), **loud)
    elif op == "matmul":
        res = sparse_matmul(csr_matrix(A), csr_matrix(B), **loud)
    elif op == "gram":
        res = sparse_gram_matrix(csr_matrix(A), transpose=sc["tr"], **loud)
    elif op == "matmul_diag":
        res = fmt(A)
        inplace_csr_matmul_diag(res, v)
    elif op == "diag_matmul":
        res = fmt(A)
        inplace_diag_matmul_csr(res, v)
    elif op == "ones":
        res = fmt(A)
        set_to_ones(res, **kw(sc, dict(tol=unr(sc["tol"])), tol=1e-8))
    elif op == "normcsc":
        x = csc_matrix(A)
        res = csc_row_normalize(x)
        assert isinstance(res, csc_matrix)
        out["kept"] = bool(np.array_equal(x.toarray(), A))
    elif op == "rebuild":
        small = csr_matrix(A)
        nz = np.array(sc["nz"], dtype=np.int32)
        res = rebuild_nnz_rowcol(small, nz, sc["n"], **({} if sc["defaultDiag"] else dict(diag_val=unr(sc["d"]))))
        out["kept"] = bool(np.array_equal(small.toarray(), A))
    elif op == "rebuild_without":
        small = csr_matrix(A)
        zeros = np.setdiff1d(np.arange(sc["n"]), np.array(sc["nz"]))
        data, ind, ptr, rows = numpy_rebuild_nnz_rowcol(small.data, small.indices, small.indptr, zeros)
        res = csr_matrix((data, ind, ptr), shape=(rows, rows))
        out["kept"] = bool(np.array_equal(small.toarray(), A))
    elif op == "remove":
        res, nz, size = remove_nnz_rowcol(fmt(A))
        out["nz"], out["size"] = ints(nz), int(size)
    elif op == "zero":
        res = fmt(A)
        set_to_zeroes(res, **kw(sc, dict(tol=unr(sc["tol"]), relative=sc["rel"], use_absolute_value=sc["abs"]),
                                tol=1e-8, relative=True, use_absolute_value=False))
    else:
        res = csr_matrix(A)
        if sc["scalar"]:
            inplace_csr_row_normalize(res, **kw(sc, dict(row_sum=float(v[0])), row_sum=1.0))
        else:
            inplace_csr_row_normalize(res, row_sum=v)
    out["res"] = mat(res)
    return out
