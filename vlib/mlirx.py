"""Execution of an exported module (an xDSL ModuleOp in the jasp, stablehlo, arith, scf, tensor, linalg and func dialects) on an own state.

Every measurement outcome of nonzero probability is followed, so that the outcomes come out as an exact distribution."""
import math

import numpy as np

from vlib import ref, jprog as J
from vlib.harness import Skip, Violation

WIDTH = {"i1": bool, "i8": np.int8, "i16": np.int16, "i32": np.int32, "i64": np.int64, "ui8": np.uint8, "ui16": np.uint16, "ui32": np.uint32, "ui64": np.uint64, "f32": np.float32, "f64": np.float64, "index": np.int64, "complex<f64>": np.complex128, "complex<f32>": np.complex64}


class Unsupported(Skip):
    pass


class Malformed(Violation):
    """the exported module has no meaning"""


def elem(t):
    return str(getattr(t, "element_type", t))


def dtype(t):
    e = elem(t)
    if e not in WIDTH:
        raise Unsupported(f"element type {e}")
    return WIDTH[e]


def shape(t):
    return tuple(t.get_shape()) if hasattr(t, "get_shape") else ()


def name_of(op):
    return op.op_name.data if op.name == "builtin.unregistered" else op.name


def tdiv(a, b):
    if np.issubdtype(a.dtype, np.integer):
        out = np.zeros(np.broadcast(a, b).shape, dtype=a.dtype)
        for ix in np.ndindex(out.shape):
            x, y = int(a[ix]), int(b[ix])
            if y == 0:
                out[ix] = -1
            else:
                q = abs(x) // abs(y)
                out[ix] = (q if (x < 0) == (y < 0) else -q) & -1
        return out
    return a / b


def trem(a, b):
    if np.issubdtype(a.dtype, np.integer):
        out = np.zeros(a.shape, dtype=a.dtype)
        for ix in np.ndindex(out.shape):
            x, y = int(a[ix]), int(b[ix])
            out[ix] = x if y == 0 else (abs(x) % abs(y)) * (-1 if x < 0 else 1)
        return out
    return np.fmod(a, b)


def fdiv_floor(a, b):
    q, r = tdiv(a, b), trem(a, b)
    return q - ((r != 0) & ((r < 0) != (b < 0))).astype(q.dtype)


def unsigned(a):
    return a.astype(np.uint8) if a.dtype == bool else a.view({1: np.uint8, 2: np.uint16, 4: np.uint32, 8: np.uint64}[a.dtype.itemsize])


def signed(a):
    return -a.astype(np.int8) if a.dtype == bool else a


def shifted(a, b, how):
    w = a.dtype.itemsize * 8
    out = np.zeros(a.shape, dtype=a.dtype)
    for ix in np.ndindex(a.shape):
        x, s = int(a[ix]), int(unsigned(b)[ix])
        u = x & (2**w - 1)
        if how == "l":
            v = 0 if s >= w else (u << s) & (2**w - 1)
        elif how == "rl":
            v = 0 if s >= w else u >> s
        else:
            v = (x >> min(s, w - 1)) & (2**w - 1)
        if np.issubdtype(a.dtype, np.signedinteger) and v >= 2 ** (w - 1):
            v -= 2**w
        out[ix] = v
    return out


def power(a, b):
    if np.issubdtype(a.dtype, np.integer):
        out = np.zeros(a.shape, dtype=a.dtype)
        for ix in np.ndindex(a.shape):
            x, y = int(a[ix]), int(b[ix])
            v = pow(x, y) if y >= 0 else (1 if x == 1 else (1 if y % 2 == 0 else -1) if x == -1 else 0)
            out[ix] = np.array(v & (2**64 - 1), dtype=np.uint64).view(np.int64).astype(a.dtype)
        return out
    return a**b


def add(a, b):
    return a ^ b if a.dtype == bool else a + b


def sub(a, b):
    return a ^ b if a.dtype == bool else a - b


def mul(a, b):
    return a & b if a.dtype == bool else a * b


def popcount(a):
    u = unsigned(a)
    return np.array([bin(int(x)).count("1") for x in u.ravel()], dtype=a.dtype).reshape(a.shape)


def clz(a):
    w = a.dtype.itemsize * 8
    u = unsigned(a)
    return np.array([w - int(x).bit_length() for x in u.ravel()], dtype=a.dtype).reshape(a.shape)


CMP = {"EQ": np.equal, "NE": np.not_equal, "LT": np.less, "LE": np.less_equal, "GT": np.greater, "GE": np.greater_equal}
HLO2 = {
    "add": lambda a, b: (a | b) if a.dtype == bool else a + b, "subtract": sub, "multiply": mul, "divide": tdiv, "remainder": trem, "power": power, "maximum": np.maximum, "minimum": np.minimum,
    "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b, "shift_left": lambda a, b: shifted(a, b, "l"), "shift_right_logical": lambda a, b: shifted(a, b, "rl"), "shift_right_arithmetic": lambda a, b: shifted(a, b, "ra"), "atan2": np.arctan2,
}
HLO1 = {
    "negate": lambda a: -a, "not": np.invert, "abs": np.abs, "sign": np.sign, "sine": np.sin, "cosine": np.cos, "exponential": np.exp, "log": np.log, "sqrt": np.sqrt, "floor": np.floor, "ceil": np.ceil, "tanh": np.tanh, "rsqrt": lambda a: 1 / np.sqrt(a),
    "round_nearest_even": np.round, "tan": np.tan, "popcnt": popcount, "count_leading_zeros": clz, "exponential_minus_one": np.expm1, "log_plus_one": np.log1p, "is_finite": np.isfinite,
    "round_nearest_afz": lambda a: np.sign(a) * np.floor(np.abs(a) + 0.5),
}
ARITH2 = {
    "arith.addi": add, "arith.subi": sub, "arith.muli": mul, "arith.andi": lambda a, b: a & b, "arith.ori": lambda a, b: a | b, "arith.xori": lambda a, b: a ^ b, "arith.addf": lambda a, b: a + b, "arith.subf": lambda a, b: a - b, "arith.mulf": lambda a, b: a * b, "arith.divf": lambda a, b: a / b,
    "arith.divsi": tdiv, "arith.remsi": trem, "arith.floordivsi": fdiv_floor, "arith.divui": lambda a, b: tdiv(unsigned(a), unsigned(b)).view(a.dtype), "arith.remui": lambda a, b: trem(unsigned(a), unsigned(b)).view(a.dtype), "arith.remf": np.fmod,
    "arith.maxsi": lambda a, b: np.where(signed(a) >= signed(b), a, b), "arith.minsi": lambda a, b: np.where(signed(a) <= signed(b), a, b), "arith.maxui": lambda a, b: np.where(unsigned(a) >= unsigned(b), a, b), "arith.minui": lambda a, b: np.where(unsigned(a) <= unsigned(b), a, b),
    "arith.maximumf": np.maximum, "arith.minimumf": np.minimum, "arith.maxnumf": np.fmax, "arith.minnumf": np.fmin, "arith.shli": lambda a, b: shifted(a, b, "l"), "arith.shrui": lambda a, b: shifted(a, b, "rl"), "arith.shrsi": lambda a, b: shifted(a, b, "ra"),
    "math.powf": lambda a, b: a**b, "math.ipowi": power, "math.fpowi": lambda a, b: a ** b.astype(np.float64), "math.atan2": np.arctan2, "math.copysign": np.copysign,
}
ARITH1 = {
    "arith.negf": lambda a: -a, "math.sin": np.sin, "math.cos": np.cos, "math.exp": np.exp, "math.log": np.log, "math.sqrt": np.sqrt, "math.floor": np.floor, "math.ceil": np.ceil, "math.absf": np.abs, "math.absi": np.abs, "math.tanh": np.tanh, "math.rsqrt": lambda a: 1 / np.sqrt(a),
    "math.roundeven": np.round, "math.round": lambda a: np.sign(a) * np.floor(np.abs(a) + 0.5), "math.tan": np.tan, "math.ctpop": popcount, "math.ctlz": clz, "math.expm1": np.expm1, "math.log1p": np.log1p,
}
CAST = ("arith.extui", "arith.extsi", "arith.trunci", "arith.sitofp", "arith.uitofp", "arith.fptosi", "arith.fptoui", "arith.index_cast", "arith.index_castui", "arith.extf", "arith.truncf", "arith.bitcast")
CMPI = [np.equal, np.not_equal, np.less, np.less_equal, np.greater, np.greater_equal, np.less, np.less_equal, np.greater, np.greater_equal]


def cmpf(p, a, b):
    un = np.isnan(a) | np.isnan(b)
    o = [None, np.equal, np.greater, np.greater_equal, np.less, np.less_equal, np.not_equal]
    if p == 0:
        return np.zeros_like(un)
    if p == 15:
        return np.ones_like(un)
    if p == 7:
        return ~un
    if p == 14:
        return un
    return (o[p](a, b) & ~un) if p < 7 else (o[p - 7](a, b) | un)


def cast(kind, a, t):
    d = dtype(t)
    if kind in ("arith.extui", "arith.uitofp", "arith.index_castui"):
        return unsigned(a).astype(d)
    if kind in ("arith.extsi", "arith.sitofp", "arith.index_cast"):
        return signed(a).astype(d)
    if kind == "arith.trunci":
        return (a & 1).astype(bool) if d is bool else a.astype(d)
    if kind == "arith.bitcast":
        return a.view(d)
    return a.astype(d)


def convert(a, t):
    """stablehlo.convert"""
    d = dtype(t)
    if d is bool:
        return a != 0
    if np.issubdtype(d, np.integer) and np.issubdtype(a.dtype, np.floating):
        return np.trunc(a).astype(d)
    return a.astype(d)


def constant(attr, t):
    vals = attr.get_values() if hasattr(attr, "get_values") else [attr.value.data]
    d = dtype(t)
    a = np.array([bool(v) if d is bool else v for v in vals])
    if a.dtype == object or (np.issubdtype(d, np.signedinteger) and a.dtype == np.uint64):
        a = np.array([int(v) for v in vals], dtype=np.int64)
    a = a.astype(d)
    s = shape(t)
    return np.full(s, a[0], dtype=d) if a.size == 1 else a.reshape(s)


def main_of(module):
    for op in module.body.block.ops:
        if op.name == "func.func" and op.sym_name.data == "main":
            return op
    raise Malformed("the exported module has no main function")


class Machine:
    """one execution with given measurement outcomes"""

    def __init__(self, module, choices, limit=200000):
        self.m, self.choices, self.pos, self.open = module, choices, 0, []
        self.funcs = {}
        for op in module.body.block.ops:
            if op.name == "func.func":
                if op.sym_name.data in self.funcs:
                    raise Malformed(f"the exported module defines {op.sym_name.data} twice")
                self.funcs[op.sym_name.data] = op
        self.st, self.n, self.ver, self.left = J.State(), 0, 0, limit
        self.used, self.handed = {}, None

    def main(self, args):
        if "main" not in self.funcs:
            raise Malformed("the exported module has no main function")
        f = self.funcs["main"]
        ins = list(f.body.blocks[0].args)
        vals, k = [], 0
        for v in ins:
            if str(v.type) == "!jasp.QuantumState":
                vals.append(("state", self.ver))
            else:
                vals.append(np.array(args[k], dtype=dtype(v.type)))
                k += 1
        if k != len(args):
            raise Malformed(f"main of the exported module takes {k} classical arguments, the program takes {len(args)}")
        return self.call(f, vals)

    def call(self, f, vals):
        if len(vals) != len(f.body.blocks[0].args):
            raise Malformed(f"call of {f.sym_name.data} with {len(vals)} arguments")
        return self.block(f.body.blocks[0], vals, {})[1]

    def block(self, b, vals, env):
        for a, v in zip(b.args, vals):
            env[a] = v
        if len(b.args) != len(vals):
            raise Malformed(f"block with {len(b.args)} arguments entered with {len(vals)}")
        for op in b.ops:
            self.left -= 1
            if self.left < 0:
                raise Malformed("the exported module does not come to an end")
            n = name_of(op)
            if n in ("func.return", "scf.yield", "scf.condition", "stablehlo.return", "linalg.yield"):
                return n, [env[o] for o in op.operands]
            self.used[n] = self.used.get(n, 0) + 1
            r = self.step(n, op, [env[o] for o in op.operands], env)
            if len(r) != len(op.results):
                raise Malformed(f"{n} with {len(op.results)} results")
            for o, v in zip(op.results, r):
                if isinstance(v, np.ndarray) and hasattr(o.type, "get_shape") and tuple(v.shape) != shape(o.type):
                    raise Malformed(f"{n} yields a tensor of shape {v.shape} declared as {o.type}")
                env[o] = v
        raise Malformed("block without end")

    def token(self, t):
        """quantum states are used in order: always the latest one"""
        if not isinstance(t, tuple) or t[0] != "state":
            raise Malformed("operation on something that is no quantum state")
        if t[1] != self.ver:
            raise Malformed("the exported module uses a quantum state that has been superseded")

    def next(self):
        self.ver += 1
        return ("state", self.ver)

    def qs(self, v):
        return list(v[1]) if v[0] == "array" else [v[1]]

    def split(self, qs):
        opts = J.Ref.split(None, self.st, qs)
        if self.pos < len(self.choices):
            want = self.choices[self.pos]
        else:
            want = opts[0][0]
            for v, _ in opts[1:]:
                self.open.append(self.choices[: self.pos] + [v])
            self.choices = self.choices + [want]
        self.pos += 1
        for v, t in opts:
            if v == want:
                self.st = t
                return v
        raise Skip("measurement outcome not reproduced")

    def step(self, n, op, o, env):
        if n.startswith("jasp."):
            return self.jasp(n, op, o)
        if n == "func.call":
            callee = op.callee.string_value()
            if callee not in self.funcs:
                raise Malformed(f"call of {callee}, which the exported module does not define")
            return self.call(self.funcs[callee], o)
        if n == "scf.if":
            return self.region(op.regions[0 if bool(o[0]) else 1], [], env)
        if n == "scf.index_switch":
            cases = [int(x) for x in op.cases.get_values()] if hasattr(op.cases, "get_values") else [int(x) for x in op.cases.as_tuple()]
            v = int(o[0])
            regs = list(op.regions)  # default region first
            return self.region(regs[1 + cases.index(v)] if v in cases else regs[0], [], env)
        if n == "stablehlo.case":
            v = int(o[0])
            if not 0 <= v < len(op.regions):
                v = len(op.regions) - 1
            return self.region(op.regions[v], [], env)
        if n == "scf.while":
            cur = list(o)
            while True:
                r = self.region(op.regions[0], cur, env)
                if not bool(r[0]):
                    return r[1:]
                cur = self.region(op.regions[1], r[1:], env)
        if n == "stablehlo.while":
            cur = list(o)
            while bool(self.region(op.regions[0], cur, env)[0]):
                cur = self.region(op.regions[1], cur, env)
            return cur
        if n in ("stablehlo.constant", "arith.constant"):
            return [constant(op.properties["value"], op.results[0].type)]
        with np.errstate(all="ignore"):
            return [self.classical(n, op, o, env)]

    def region(self, r, vals, env):
        return self.block(r.blocks[0], vals, dict(env))[1]

    def classical(self, n, op, o, env):
        t = op.results[0].type
        if n in ARITH2:
            return np.asarray(ARITH2[n](o[0], o[1])).astype(o[0].dtype)
        if n in ARITH1:
            return np.asarray(ARITH1[n](o[0]))
        if n == "builtin.unrealized_conversion_cast":
            a, b = elem(op.operands[0].type), elem(t)
            if a.lstrip("u") != b.lstrip("u"):
                raise Unsupported(f"cast of {a} to {b}")
            return o[0] if dtype(t) is bool else o[0].view(dtype(t))
        if n in CAST:
            return np.asarray(cast(n, o[0], t))
        if n == "arith.cmpi":
            p = op.predicate.value.data
            a, b = (unsigned(x) if p >= 6 else signed(x) for x in o)
            return np.asarray(CMPI[p](a, b))
        if n == "arith.cmpf":
            return np.asarray(cmpf(op.predicate.value.data, o[0], o[1]))
        if n == "arith.select":
            return np.where(o[0], o[1], o[2]) if isinstance(o[1], np.ndarray) else (o[1] if bool(o[0]) else o[2])
        if n == "tensor.extract":
            if len(o) - 1 != np.ndim(o[0]):
                raise Malformed(f"tensor.extract with {len(o) - 1} indices of a tensor of rank {np.ndim(o[0])}")
            return np.asarray(o[0][tuple(int(i) for i in o[1:])])
        if n == "tensor.from_elements":
            if len(o) != int(np.prod(shape(t), dtype=int)):
                raise Malformed(f"{t} made of {len(o)} elements")
            return np.array([x for x in o], dtype=dtype(t)).reshape(shape(t))
        if n == "tensor.empty":
            return np.zeros(shape(t), dtype=dtype(t))
        if n in ("tensor.collapse_shape", "tensor.expand_shape", "tensor.reshape", "stablehlo.reshape"):
            return o[0].reshape(shape(t))
        if n == "linalg.generic":
            return self.generic(op, o, env)
        if n == "linalg.fill":
            return np.full(shape(t), o[0], dtype=dtype(t))
        if n.startswith("stablehlo."):
            k = n[10:]
            if k in HLO2:
                return np.asarray(HLO2[k](o[0], o[1])).astype(o[0].dtype)
            if k in HLO1:
                return np.asarray(HLO1[k](o[0]))
            if k == "convert":
                return np.asarray(convert(o[0], t))
            if k == "compare":
                d = str(op.properties["comparison_direction"]).rstrip(">").split()[-1]
                return np.asarray(CMP[d](o[0], o[1]))
            if k == "select":
                return np.where(o[0], o[1], o[2])
            if k == "clamp":
                return np.minimum(np.maximum(o[1], o[0]), o[2]).astype(o[1].dtype)
            if k == "dynamic_slice":
                sizes = [int(x) for x in op.properties["slice_sizes"].get_values()]
                at = [min(max(int(i), 0), o[0].shape[a] - sizes[a]) for a, i in enumerate(o[1:])]
                return o[0][tuple(slice(i, i + s) for i, s in zip(at, sizes))]
            if k == "dynamic_update_slice":
                at = [min(max(int(i), 0), o[0].shape[a] - o[1].shape[a]) for a, i in enumerate(o[2:])]
                r = o[0].copy()
                r[tuple(slice(i, i + s) for i, s in zip(at, o[1].shape))] = o[1]
                return r
            if k == "slice":
                s, l, d = ([int(x) for x in op.properties[p].get_values()] for p in ("start_indices", "limit_indices", "strides"))
                return o[0][tuple(slice(a, b, c) for a, b, c in zip(s, l, d))]
            if k == "concatenate":
                return np.concatenate(o, axis=int(op.properties["dimension"].value.data))
            if k == "iota":
                ax = int(op.properties["iota_dimension"].value.data)
                s = shape(t)
                return np.broadcast_to(np.arange(s[ax]).reshape([-1 if i == ax else 1 for i in range(len(s))]), s).astype(dtype(t))
            if k == "broadcast_in_dim":
                dims = [int(x) for x in op.properties["broadcast_dimensions"].get_values()]
                s = shape(t)
                v = [1] * len(s)
                for i, a in enumerate(dims):
                    v[a] = o[0].shape[i]
                return np.broadcast_to(o[0].reshape(v), s).copy()
            if k == "transpose":
                return np.transpose(o[0], [int(x) for x in op.properties["permutation"].get_values()])
        if n == "tensor.extract_slice":
            P = op.properties
            st, si, sr = ([int(x) for x in P[p].get_values()] for p in ("static_offsets", "static_sizes", "static_strides"))
            dyn = iter(o[1:])
            st, si, sr = ([int(next(dyn)) if x == -(2**63) else x for x in l] for l in (st, si, sr))
            r = o[0][tuple(slice(a, a + b * c, c) for a, b, c in zip(st, si, sr))]
            return r.reshape(shape(t))
        if n == "tensor.insert_slice":
            P = op.properties
            st, si, sr = ([int(x) for x in P[p].get_values()] for p in ("static_offsets", "static_sizes", "static_strides"))
            dyn = iter(o[2:])
            st, si, sr = ([int(next(dyn)) if x == -(2**63) else x for x in l] for l in (st, si, sr))
            r = o[1].copy()
            sl = tuple(slice(a, a + b * c, c) for a, b, c in zip(st, si, sr))
            r[sl] = o[0].reshape(r[sl].shape)
            return r
        raise Unsupported(f"operation {n}")

    def generic(self, op, o, env):
        maps = [m.data for m in op.indexing_maps.data]
        nin = len(op.inputs)
        if len(op.outputs) != 1:
            raise Unsupported("linalg.generic with several results")
        out = o[nin].copy()
        nd = maps[0].num_dims
        size = [None] * nd
        for m, v in zip(maps, o):
            for i, e in enumerate(m.results):
                p = getattr(e, "position", None)
                if p is not None:
                    size[p] = v.shape[i]
        if None in size:
            raise Unsupported("loop bounds of linalg.generic")
        for ix in np.ndindex(*size):
            vals = []
            for k, (m, v) in enumerate(zip(maps, o)):
                src = out if k == nin else v
                vals.append(np.asarray(src[tuple(m.eval(list(ix), []))]))
            _, r = self.block(op.regions[0].blocks[0], vals, dict(env))
            out[tuple(maps[nin].eval(list(ix), []))] = r[0]
        return out

    def jasp(self, n, op, o):
        st = self.st
        if n == "jasp.create_quantum_kernel":
            self.ver += 1
            return [("state", self.ver)]
        if n == "jasp.consume_quantum_kernel":
            self.token(o[0])
            return [np.array(True)]
        if n == "jasp.create_qubits":
            self.token(o[1])
            k = int(o[0])
            ids = list(range(self.n, self.n + k))
            self.n += k
            for i in ids:
                st.alloc(i)
            return [("array", ids), self.next()]
        if n == "jasp.get_qubit":
            i = int(o[1])
            if not -len(o[0][1]) <= i < len(o[0][1]):
                raise Malformed(f"the exported module reads qubit {i} of a register of {len(o[0][1])}")
            return [("qubit", o[0][1][i])]
        if n == "jasp.get_size":
            return [np.array(len(o[0][1]), dtype=np.int64)]
        if n == "jasp.slice":
            return [("array", o[0][1][int(o[1]) : int(o[2])])]
        if n == "jasp.fuse":
            return [("array", self.qs(o[0]) + self.qs(o[1]))]
        if n == "jasp.measure":
            self.token(o[1])
            v = self.split(self.qs(o[0]))
            return [np.array(v, dtype=np.int64) if o[0][0] == "array" else np.array(bool(v)), self.next()]
        if n == "jasp.reset":
            self.token(o[1])
            q = self.qs(o[0])
            v = self.split(q)
            for i, x in enumerate(q):
                if v >> i & 1:
                    self.st.apply(ref.X, [x], [])
            return [self.next()]
        if n == "jasp.delete_qubits":
            self.token(o[1])
            for q in self.qs(o[0]):
                st.free(q)
            return [self.next()]
        if n == "jasp.parity":
            v = 0
            for x in o:
                v ^= int(bool(x))
            e = int(op.expectation.value.data)
            return [np.array(bool(v ^ (e if e in (0, 1) else 0)))]
        if n == "jasp.quantum_gate":
            self.token(o[-1])
            gate = op.gate_type.data
            qs = [v[1] for v in o[:-1] if isinstance(v, tuple)]
            par = [float(v) for v in o[:-1] if isinstance(v, np.ndarray)]
            if any(isinstance(v, tuple) and v[0] != "qubit" for v in o[:-1]):
                raise Malformed(f"gate {gate} applied to something that is no qubit")
            if len(set(qs)) < len(qs):
                raise Malformed(f"gate {gate} applied to the same qubit twice")
            self.gate(gate, par, qs)
            return [self.next()]
        raise Unsupported(f"operation {n}")

    def gate(self, gate, par, qs):
        st = self.st
        base, nc = gate, 0
        two = {"swap": ref.SWAP, "rxx": ref.rxx_mat, "rzz": ref.rzz_mat}
        if gate in two:
            m = two[gate] if gate == "swap" else two[gate](*par)
            st.apply(m, qs, [])
            return
        if gate in ("barrier",):
            return
        while len(qs) - nc > 1 and base.startswith("c"):
            base, nc = base[1:], nc + 1
        m = ref.named_1q(base, par)
        if m is None or len(qs) - nc != 1:
            raise Unsupported(f"gate {gate} on {len(qs)} qubits")
        st.apply(m, [qs[-1]], [(q, 1) for q in qs[:-1]])


def paths(module, args, most=400):
    """[(probability, results, final state)] over all measurement outcomes, and the operations met"""
    todo, out, used = [[]], [], {}
    while todo:
        M = Machine(module, todo.pop())
        r = M.main(args)
        todo += M.open
        for k, v in M.used.items():
            used[k] = used.get(k, 0) + v
        if not r or r[-1] != ("state", M.ver):
            raise Malformed("the exported module does not hand back the latest quantum state")
        out.append((float(np.vdot(M.st.T, M.st.T).real), r[:-1], M.st))
        if len(out) + len(todo) > most:
            raise Skip("too many branches")
    return out, used
