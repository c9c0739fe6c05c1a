"""Reference model of operators: dense matrices, factor 0 most significant."""
import re

import numpy as np

M = {
    "I": np.eye(2, dtype=complex),
    "X": np.array([[0, 1], [1, 0]], dtype=complex),
    "Y": np.array([[0, -1j], [1j, 0]], dtype=complex),
    "Z": np.array([[1, 0], [0, -1]], dtype=complex),
    "A": np.array([[0, 1], [0, 0]], dtype=complex),
    "C": np.array([[0, 0], [1, 0]], dtype=complex),
    "P0": np.array([[1, 0], [0, 0]], dtype=complex),
    "P1": np.array([[0, 0], [0, 1]], dtype=complex),
}
LETTERS = ["X", "Y", "Z", "A", "C", "P0", "P1"]


def string(factors, n):
    """matrix of a product of single qubit factors {index: letter}"""
    m = np.ones((1, 1), dtype=complex)
    for i in range(n):
        m = np.kron(m, M[factors.get(i, "I")])
    return m


def ladder(i, creator, n):
    """Jordan-Wigner matrix of one fermionic ladder operator"""
    f = {j: "Z" for j in range(i)}
    f[i] = "C" if creator else "A"
    return string(f, n)


def herm(m):
    return (m + m.conj().T) / 2


def norm(m):
    return float(np.linalg.norm(m, 2)) if m.size else 0.0


def evaluate_text(s, n, fermionic=False):
    """value of the displayed form of an operator"""
    names = {}

    def sub(match):
        letter, i = match.group(1), int(match.group(2) or match.group(3))
        key = f"{letter}_{i}"
        names[key] = W(ladder(i, letter == "c", n) if fermionic else string({i: letter}, n))
        return key

    pat = r"\b(a|c)(?:_|\()(\d+)\)?" if fermionic else r"\b(X|Y|Z|A|C|P0|P1)(?:_(\d+)|\((\d+)\))"
    if fermionic:
        s = re.sub(pat, lambda m: sub2(m, names, n), s)
    else:
        s = re.sub(pat, sub, s)
    s = re.sub(r"\bI\b", "1j", s)
    v = eval(s, {"__builtins__": {}}, names)
    return v.m if isinstance(v, W) else complex(v) * np.eye(2**n)


def sub2(match, names, n):
    letter, i = match.group(1), int(match.group(2))
    key = f"{letter}_{i}"
    names[key] = W(ladder(i, letter == "c", n))
    return key


class W:
    """matrix with operator arithmetic including scalars as multiples of the identity"""

    def __init__(self, m):
        self.m = m

    def lift(self, o):
        return o.m if isinstance(o, W) else complex(o) * np.eye(len(self.m))

    def __add__(self, o):
        return W(self.m + self.lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return W(self.m - self.lift(o))

    def __rsub__(self, o):
        return W(self.lift(o) - self.m)

    def __mul__(self, o):
        return W(self.m @ self.lift(o))

    def __rmul__(self, o):
        return W(self.lift(o) @ self.m)

    def __truediv__(self, o):
        return W(self.m / complex(o))

    def __neg__(self):
        return W(-self.m)

    def __pow__(self, e):
        return W(np.linalg.matrix_power(self.m, e))
