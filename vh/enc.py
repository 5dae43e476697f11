"""Encoding of Python values for the specification (see spec/RealNum.tla)."""
import struct
import numpy as np


def r(x):
    x = float(x)
    if x == 0.0:
        x = 0.0
    return list(struct.unpack(">ii", struct.pack(">d", x)))


def unr(p):
    return struct.unpack(">d", struct.pack(">ii", p[0], p[1]))[0]


def vec(a):
    a = np.asarray(a, dtype=np.float64).ravel() + 0.0
    return a.astype(">f8").view(">i4").reshape(-1, 2).tolist()


def mat(a):
    if hasattr(a, "toarray"):
        a = a.toarray()
    a = np.asarray(a, dtype=np.float64) + 0.0
    if a.ndim != 2:
        return [[r(float("nan"))]]
    return [vec(row) for row in a]


def unmat(m):
    return np.array([[unr(x) for x in row] for row in m])


def ints(a):
    return [int(x) for x in a]
