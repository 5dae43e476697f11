import numpy as np

from .runner import variants
from .enc import mat, r, vec
from .gen_net import rng

BIN = ["add", "sub", "mul", "mul", "mul", "addcsr", "addarr", "raddcsr", "raddarr", "subcsr", "subarr",
       "rsubcsr", "rsubarr", "mulcsr", "mularr", "rmulcsr", "rmularr"]
UN = ["scale", "rscale", "transpose", "subdiag", "adddiag", "copy", "dict", "pickle", "fromfull"]


def rep(rnd, n, stoch):
    m = rnd.choice([0, 1, 2, n // 2, n - 1, n])
    m = max(0, min(n, m))
    nz = sorted(rnd.sample(range(n), m))
    sm = np.zeros((m, m))
    for i in range(m):
        for j in range(m):
            if rnd.random() < 0.6:
                sm[i, j] = rnd.randint(1, 9) / 10
                if not stoch and rnd.random() < 0.35:
                    sm[i, j] *= -1
                if rnd.random() < 0.08:
                    sm[i, j] *= 1e-11
    d = 1.0
    if rnd.random() < 0.2:          # symmetric
        if stoch:
            ix = rnd.sample(range(m), m)
            sm = np.eye(m)
            for a, b in zip(ix[::2], ix[1::2]):
                x = rnd.randint(1, 9) / 10
                sm[a, a] = sm[b, b] = 1 - x
                sm[a, b] = sm[b, a] = x
        else:
            sm = np.triu(sm) + np.triu(sm, 1).T
    elif stoch:
        for i in range(m):
            if sm[i].sum() < 0.05:
                sm[i, i] = 1.0
            sm[i] /= sm[i].sum()
    if not stoch:
        d = rnd.choice([1.0, 1.0, 0.0, 0.5, -2.0, 3.0])
        if rnd.random() < 0.3:      # the largest ones in size are negative
            sm = np.where(np.abs(sm) > 0.35, -np.abs(sm), sm)
    how = rnd.choice(["ctor", "small", "full", "full_nz", "unsorted", "full_zeros"])
    return dict(nz=nz, sm=mat(sm) if m else [], d=r(d), how=how, dflt=rnd.random() < 0.5)


def chain(rnd, stoch, nops):
    n = rnd.randint(1, 7)
    ops = []
    for _ in range(nops):
        i, j, k = (rnd.randint(1, 3) for _ in range(3))
        u = rnd.random()
        if stoch:
            # what the analysis does: products, row normalization, rounding
            op = rnd.choice(["mul", "mul", "mul", "norm", "norm", "zero", "copy", "transpose", "sub", "add", "dict"])
            if op == "norm" and ops and ops[-1]["op"] == "zero":
                i = ops[-1]["i"]
        else:
            op = rnd.choice(BIN) if u < 0.6 else rnd.choice(UN) if u < 0.88 else rnd.choice(["norm", "zero"])
        o = dict(op=op, i=i)
        if op in BIN:
            o.update(j=j, k=k)
        elif op in UN:
            o["k"] = k
            if op in ("scale", "rscale", "subdiag", "adddiag", "fromfull"):
                o["int"] = rnd.random() < 0.3
                o["x"] = r(rnd.choice([2, -1, 3, 0]) if o["int"] else rnd.choice([0.5, 1.0, -0.25, 2.0, 0.0]))
            if op == "transpose" and rnd.random() < 0.5:
                o["flag"] = rnd.random() < 0.5
        elif op == "norm":
            o["x"], o["flag"] = r(rnd.choice([1.0, 1.0, 0.5, 2.0])), rnd.random() < 0.5
        else:
            neg = not stoch or any(x["op"] == "sub" for x in ops)
            o["flag"], o["abs"], o["strict"] = rnd.random() < 0.5, neg or rnd.random() < 0.5, False
            o["rel"] = rnd.random() < 0.75
            o["tol"] = r(1e-8 if rnd.random() < 0.3 else rnd.choice([0.0, 1e-5, 0.05, 0.123, 0.231, 0.377]))
        o["dflt"] = rnd.random() < 0.6
        ops.append(o)
    return dict(kind="chain", n=n, init=[rep(rnd, n, stoch) for _ in range(3)], ops=ops)


def helper(rnd):
    op = rnd.choice(["outer", "outer_triu", "matmul", "gram", "matmul_diag", "diag_matmul", "normalize", "zero",
                     "ones", "normcsc", "rebuild", "rebuild_without", "remove"])
    n = rnd.randint(2, 6)

    def m(a, b, neg=True):
        x = np.zeros((a, b))
        for i in range(a):
            for j in range(b):
                if rnd.random() < 0.6:
                    x[i, j] = rnd.randint(1, 9) / 10 * (-1 if neg and rnd.random() < 0.3 else 1)
        return x
    sc = dict(kind="helper", op=op, dflt=rnd.random() < 0.5, messy=rnd.random() < 0.3, loud=rnd.random() < 0.2)
    if op in ("outer", "outer_triu"):
        v = m(1, n)[0]
        v[rnd.randrange(n)] = 0.7
        mkl = rnd.random() < 0.5
        if mkl:             # documented: only the upper triangle
            sc["op"] = "outer_triu"
        sc.update(v=vec(v), mkl=mkl, triu=op == "outer_triu")
    elif op == "matmul":
        k = rnd.randint(1, 5)
        A, B = m(n, k), m(k, rnd.randint(1, 5))
        A[0, 0] = B[0, 0] = 0.3
        sc.update(A=mat(A), B=mat(B))
    elif op == "gram":
        A = m(n, rnd.randint(1, 5))
        A[0, 0] = 0.7
        sc.update(A=mat(A), tr=rnd.random() < 0.5, upper=True)
    elif op == "ones":
        A = m(n, rnd.randint(1, 5))
        for i in range(n):
            for j in range(A.shape[1]):
                if rnd.random() < 0.4:
                    A[i, j] = 1 + rnd.choice([0, 1, -1]) * rnd.choice([1e-9, 1e-5, 0.03, 0.2])
        sc.update(A=mat(A), csc=rnd.random() < 0.5, tol=r(rnd.choice([0.0, 1e-8, 1e-4, 0.1])))
    elif op == "normcsc":
        A = m(n, rnd.randint(1, 5))
        for i in range(n):
            if abs(A[i].sum()) < 0.05:
                A[i] = 0
        sc.update(A=mat(A))
    elif op in ("rebuild", "rebuild_without"):
        nz = sorted(rnd.sample(range(n), rnd.randint(1, n)))
        d = rnd.random() < 0.5 or op == "rebuild_without"
        sc.update(A=mat(m(len(nz), len(nz))), nz=nz, n=n, defaultDiag=d, d=r(1.0 if d else rnd.choice([0.0, 0.5, -1.0, 3.0])))
    elif op == "remove":
        A = m(n, n)
        for i in rnd.sample(range(n), rnd.randint(0, n - 1)):
            A[i] = A[i] * (rnd.random() < 0.2)
            A[:, i] = A[:, i] * (rnd.random() < 0.2)
        sc.update(A=mat(A), csc=rnd.random() < 0.5)
    elif op == "zero":
        A = m(n, rnd.randint(1, 5), neg=rnd.random() < 0.7)
        if rnd.random() < 0.3:
            A = np.where(np.abs(A) > 0.35, -np.abs(A), A)
        A = np.where(np.array([[rnd.random() < 0.2 for _ in row] for row in A]), A * 1e-9, A)
        sc.update(A=mat(A), csc=rnd.random() < 0.5, rel=rnd.random() < 0.7, abs=bool((A < 0).any() or rnd.random() < 0.5),
                  tol=r(1e-8 if rnd.random() < 0.3 else rnd.choice([0.0, 0.05, 0.123, 0.231, 0.377])))
    elif op in ("matmul_diag", "diag_matmul"):
        sc.update(A=mat(m(n, n)), v=vec(m(1, n)[0]), csc=rnd.random() < 0.5)
    else:
        A = m(n, n)
        for i in range(n):
            if abs(A[i].sum()) < 0.05:
                A[i] = 0
        scalar = rnd.random() < 0.5
        v = np.full(n, rnd.choice([1.0, 1.0, 0.5, 0.0])) if scalar else np.array([rnd.choice([1.0, 0.3, 2.0, 0.0]) for _ in range(n)])
        sc.update(A=mat(A), v=vec(v), scalar=scalar)
    return sc


def sparse_suites(ctx, n_chain, n_help):
    rnd = rng(ctx, "sparse")
    ctx.model("MC_SparseMat", "CONSTANTS\n N = 3\n MaxNz = 2\n Entries = {0,1%s}\n Diags = {0,1,2}\n"
              "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Commutes\n" % (",2" if ctx.thorough else ""),
              name="SparseMat: operations on representations commute with their meaning", timeout=800)
    ctx.suite("operation_chains", "sparse", "J_SparseMat", "VChain",
              variants([chain(rnd, k % 3 == 0, rnd.randint(1, 8)) for k in range(n_chain)], 5))
    sc = variants([helper(rnd) for _ in range(n_help)], 3)
    for s in sc:
        if s.get("hide") == "mkl":
            # without it, both triangles
            if s["op"] == "gram":
                s["upper"] = False
            elif s.get("mkl"):
                s["op"] = "outer_triu" if s["triu"] else "outer"
    ctx.suite("matrix_helpers", "sparse", "J_SparseMat", "VHelper", sc)
