"""Models of builtins and of the external libraries the analysed package uses."""
import ast
from fractions import Fraction as Fr
import numpy as np
from . import nf, val
from .nf import RF
from .val import Undecided, AbsRaise, Gam, TRF, num, apply, ite
from .interp import (Ref, ArrV, FuncV, BoundV, ClassV, ModuleV, ExtV, BuiltinV, MethV, PartialV, PyFn, SuperV, DerivV,
                     RangeV, SliceV, OpqV, StrV, OpqDict, UNBOUND, mkstr, mknum, taint, range_items, size_const, EXC_BASES)

HALF = Fr(1, 2)


def isnumish(v):
    return isinstance(v, (RF, bool))


class Ext:
    BUILTINS = {
        "object_init", "super", "property", "staticmethod", "classmethod", "isinstance", "issubclass", "len", "range",
        "enumerate", "zip", "map", "filter", "abs", "max", "min", "sum", "round", "float", "int", "str", "repr", "dict",
        "list", "tuple", "set", "frozenset", "print", "sorted", "reversed", "any", "all", "getattr", "setattr",
        "hasattr", "delattr", "type", "callable", "vars", "pow", "iter", "next", "format", "object", "bool", "id",
        "divmod", "complex", "NotImplemented", "dir", "locals", "globals", "hash", "slice", "open", "input", "ord",
        "chr", "__import__", "exec", "eval", "bytes",
    }

    CONSTS = {}

    def __init__(self, I):
        self.bodies = []
        self.min_map = None
        self.taint_len = False        # array lengths are sizes chosen by the analysis
        self.minimize_hook = None     # stands in for the optimiser
        self.sobol_hook = None        # (engine record, point index, coordinate) -> point
        self.ppf_hook = None
        self.effects = []             # (what, where, function): acts that outlive the call
        self.errset = {"divide": "warn", "over": "warn", "under": "ignore", "invalid": "warn"}
        self.drawn = []               # drawing calls: (name, args, kwargs, location)
        self.guarded = []             # kinds of process-wide state restored by an enclosing with-block
        self.I = I
        self.rand = 0
        self.opq = 0
        self.unmodelled = {}

    # ------------------------------------------------------------------ attributes of external modules
    def attr(self, path):
        p = path
        if p in ("numpy.pi", "math.pi", "scipy.pi", "scipy.constants.pi"):
            return nf.PI()
        if p in ("numpy.inf", "math.inf", "numpy.Inf", "numpy.infty", "numpy.PINF"):
            return nf.INF()
        if p == "numpy.NINF":
            return nf.neg(nf.INF())
        if p in ("numpy.nan", "math.nan", "numpy.NaN", "numpy.NAN"):
            return nf.NAN()
        if p in ("numpy.e", "math.e"):
            return nf.exp(num(1))
        if p in ("math.tau",):
            return nf.scale(nf.PI(), 2)
        if p == "numpy.euler_gamma":
            return nf.sym("euler_gamma")
        if p == "numpy.newaxis":
            return None
        if p == "sys.float_info.epsilon":
            return num(Fr(1, 2 ** 52))
        if p == "sys.float_info.max":
            return num(Fr(2) ** 1023)
        if p == "sys.float_info.min":
            return num(Fr(1, 2 ** 1022))
        if p == "sys.maxsize":
            return num(2 ** 63 - 1)
        if p == "numpy.True_":
            return True
        if p == "numpy.False_":
            return False
        if p in ("os.environ", "sys.argv", "sys.flags"):
            self.I.rand_events.append(("environment", p, self.I.curfunc()))
        return ExtV(p)

    # ------------------------------------------------------------------ helpers
    def num(self, v):
        return self.I.tonum(v)

    def asarray(self, v):
        I = self.I
        if isinstance(v, ArrV):
            return v
        if isinstance(v, Gam):
            if all(isnumish(z) for z in val.leaves(v)):
                return self.mk0(v)
            raise Undecided("array from a gated value")
        if isinstance(v, RangeV):
            items = v.items()
            return I.arr_from(items, (len(items),))
        if isinstance(v, Ref) and I.rec(v).kind in ("list", "iter"):
            v = tuple(I.rec(v).data)
        if isinstance(v, (tuple,)):
            if not v:
                return I.arr_from([], (0,))
            parts = []
            for z in v:
                if isinstance(z, (tuple, ArrV, RangeV)) or (isinstance(z, Ref) and I.rec(z).kind in ("list", "iter")):
                    parts.append(I.nd(self.asarray(z)))
                else:
                    t = np.empty((), dtype=object)
                    t[()] = z
                    parts.append(t)
            sh = parts[0].shape
            if any(p.shape != sh for p in parts):
                raise AbsRaise("ValueError", "inhomogeneous array")
            flat = []
            for p in parts:
                flat.extend(list(p.reshape(-1)) if p.shape else [p[()]])
            return I.arr_from(flat, (len(v),) + sh)
        if isnumish(v) or v is None or isinstance(v, (str, OpqV)):
            return self.mk0(v)
        raise Undecided("array of %r" % (v,))

    def mk0(self, v):
        return self.I.arr_from([v], ())

    def isarr(self, v):
        return isinstance(v, (ArrV, RangeV)) or isinstance(v, tuple) or (isinstance(v, Ref) and self.I.rec(v).kind in ("list", "iter"))

    def heapish(self, v):
        return isinstance(v, Gam) and any(isinstance(z, (ArrV, Ref, tuple)) for z in val.leaves(v))

    def el1(self, f, v):
        """elementwise unary function on numbers."""
        I = self.I
        if self.heapish(v):
            return I.dist(lambda z: self.el1(f, z), v)
        if self.isarr(v):
            return I.ufunc1(lambda x: apply(lambda z: I.unint(f(self.num(z))), x), self.asarray(v))
        return apply(lambda z: I.unint(f(self.num(z))), v)

    def el2(self, f, a, b):
        I = self.I
        if self.heapish(a):
            return I.dist(lambda z: self.el2(f, z, b), a)
        if self.heapish(b):
            return I.dist(lambda z: self.el2(f, a, z), b)
        if self.isarr(a) or self.isarr(b):
            x = I.nd(self.asarray(a)) if self.isarr(a) else a
            y = I.nd(self.asarray(b)) if self.isarr(b) else b
            return I.ufunc2(lambda p, q: apply(lambda u, v: I.unint(f(self.num(u), self.num(v))), p, q), x, y)
        return apply(lambda u, v: I.unint(f(self.num(u), self.num(v))), a, b)

    def scalar(self, v):
        """float(): a one-element array becomes its element."""
        if isinstance(v, ArrV):
            if v.idx.size != 1:
                raise AbsRaise("TypeError", "only length-1 arrays can be converted to Python scalars")
            return self.I.nd(v).reshape(-1)[0]
        return v

    def shape(self, v):
        if isinstance(v, ArrV):
            return v.shape
        if self.isarr(v):
            return self.asarray(v).shape
        return ()

    def ints(self, v):
        """shape argument -> tuple of ints"""
        I = self.I
        if isinstance(v, (tuple,)) or (isinstance(v, Ref)) or isinstance(v, ArrV):
            return tuple(I.pyint(z) for z in I.iterate(v))
        return (I.pyint(v),)

    def sign(self, x):
        s = nf.sign_of(x)
        if s in (0, 1, -1):
            return num(s)
        return ite(val.cmp_cond(x, val.POS), num(1), ite(val.cmp_cond(x, val.ZERO), num(0), num(-1)))

    def isnan(self, x):
        if nf.eq(x, nf.NAN()):
            return True
        if any(a.kind == "fn" and a.data[0] in ("opq", "rand", "rng") for a in nf.atoms_of(x)) or \
                any(a.kind == "sym" and a.data == "nan" for a in nf.atoms_of(x)):
            return val.opq_cond(("isnan", x))
        return False

    def isinf(self, x, sign=0):
        inf = nf.INF()
        if any(a.kind == "sym" and a.data == "inf" for a in nf.atoms_of(x)):
            if nf.eq(x, inf):
                return sign >= 0
            if nf.eq(x, nf.neg(inf)):
                return sign <= 0
            s = nf.sign_of(x)
            if s in (1, -1):
                return sign == 0 or sign == s
            return val.opq_cond(("isinf", x, sign))
        if any(a.kind == "fn" and a.data[0] in ("opq",) for a in nf.atoms_of(x)):
            return val.opq_cond(("isinf", x, sign))
        return False

    def atan(self, x):
        c = x.const()
        if c == 1:
            return nf.scale(nf.PI(), Fr(1, 4))
        if c == 0:
            return num(0)
        if c == -1:
            return nf.scale(nf.PI(), Fr(-1, 4))
        if x.num and val.NEG and nf.real_fp(x) < 0:
            return nf.neg(nf.fn("atan", nf.neg(x)))
        return nf.fn("atan", x)

    def trig(self, name, x):
        if not x.num:
            return num(0 if name in ("sin", "tan", "sinh", "tanh") else 1)
        if name in ("sinh", "cosh", "tanh"):
            e, m = nf.exp(x), nf.exp(nf.neg(x))
            if name == "sinh":
                return nf.scale(nf.sub(e, m), HALF)
            if name == "cosh":
                return nf.scale(nf.add(e, m), HALF)
            return nf.div(nf.sub(e, m), nf.add(e, m))
        if nf.real_fp(x) < 0:
            r = nf.fn(name, nf.neg(x))
            return r if name == "cos" else nf.neg(r)
        return nf.fn(name, x)

    def floorlike(self, name, x):
        c = x.const()
        if c is not None:
            import math
            v = {"floor": math.floor, "ceil": math.ceil, "trunc": int, "int": int}[name](c)
            return taint(num(v), x, op=name)
        if name in ("int", "trunc") and self.integral(x):
            return x
        return nf.fn(name, x, integer=True)

    def integral(self, x):
        if x.den:
            return False
        for m, c in x.num.items():
            if c.denominator != 1:
                return False
            for k, e in m:
                a = nf.ATOMS[k]
                if e < 0 or e != int(e):
                    return False
                if not getattr(a, "integer", False) and not (a.kind == "P" and
                                                             all(self.integral(z) for z in nf.atom_children(a))):
                    return False
        return True

    def log(self, x):
        if not x.num:
            raise AbsRaise("ZeroDivisionError", "log of zero")
        return nf.log(x)

    UN = None

    def unary(self):
        if self.UN is None:
            nl2 = lambda x: nf.div(self.log(x), nf.log(num(2)))
            nl10 = lambda x: nf.div(self.log(x), nf.log(num(10)))
            self.UN = {
                "exp": nf.exp, "log": self.log, "sqrt": nf.sqrt, "abs": nf.absolute, "fabs": nf.absolute,
                "absolute": nf.absolute, "sign": self.sign, "square": lambda x: nf.mul(x, x),
                "negative": nf.neg, "positive": lambda x: x, "reciprocal": lambda x: nf.inv(x),
                "expm1": lambda x: nf.sub(nf.exp(x), num(1)), "log1p": lambda x: self.log(nf.add(x, num(1))),
                "exp2": lambda x: nf.power(num(2), x), "log2": nl2, "log10": nl10,
                "real": nf.real, "imag": nf.imag, "conj": lambda x: nf.fn("conj", x),
                "arctan": self.atan, "atan": self.atan,
                "isnan": self.isnan, "isinf": self.isinf,
                "isfinite": lambda x: val.b_not(val.b_or(self.isnan(x), self.isinf(x))),
                "isposinf": lambda x: self.isinf(x, 1), "isneginf": lambda x: self.isinf(x, -1),
                "floor": lambda x: self.floorlike("floor", x), "ceil": lambda x: self.floorlike("ceil", x),
                "trunc": lambda x: self.floorlike("trunc", x), "fix": lambda x: self.floorlike("trunc", x),
                "cbrt": lambda x: nf.powq(x, Fr(1, 3)),
                "erf": lambda x: nf.fn("erf", x), "erfc": lambda x: nf.sub(num(1), nf.fn("erf", x)),
                "nan_to_num": lambda x: x if self.isnan(x) is False and self.isinf(x) is False else nf.fn("nan_to_num", x),
                "angle": lambda x: nf.fn("angle", x), "gamma": lambda x: nf.fn("gammafn", x),
            }
            for t in ("sin", "cos", "tan", "sinh", "cosh", "tanh"):
                self.UN[t] = (lambda t: lambda x: self.trig(t, x))(t)
            for t in ("arcsin", "arccos", "asin", "acos"):
                self.UN[t] = (lambda t: lambda x: nf.fn(t, x))(t)
        return self.UN

    def num_eq(self, a, b):
        return self.I.equals(a, b)

    def binary(self):
        I = self.I
        B = {
            "maximum": lambda a, b: I.select("max", a, b), "minimum": lambda a, b: I.select("min", a, b),
            "fmax": lambda a, b: I.select("max", a, b), "fmin": lambda a, b: I.select("min", a, b),
            "power": lambda a, b: I.npow(a, b), "float_power": lambda a, b: I.npow(a, b), "pow": lambda a, b: I.npow(a, b),
            "add": lambda a, b: I.num_binop("Add", a, b), "subtract": lambda a, b: I.num_binop("Sub", a, b),
            "multiply": lambda a, b: I.num_binop("Mult", a, b), "divide": lambda a, b: I.num_binop("Div", a, b),
            "true_divide": lambda a, b: I.num_binop("Div", a, b), "floor_divide": lambda a, b: I.num_binop("FloorDiv", a, b),
            "mod": lambda a, b: I.num_binop("Mod", a, b), "fmod": lambda a, b: nf.fn("fmod", a, b),
            "remainder": lambda a, b: I.num_binop("Mod", a, b),
            "hypot": lambda a, b: nf.sqrt(nf.add(nf.mul(a, a), nf.mul(b, b))),
            "arctan2": lambda a, b: nf.fn("atan2", a, b), "atan2": lambda a, b: nf.fn("atan2", a, b),
            "copysign": lambda a, b: apply(lambda s: nf.mul(nf.absolute(a), s), self.sign(b)),
            "heaviside": lambda a, b: ite(val.cmp_cond(a, val.POS), num(1), ite(val.cmp_cond(a, val.ZERO), b, num(0))),
        }
        return B

    CMP = {"greater": "Gt", "less": "Lt", "greater_equal": "GtE", "less_equal": "LtE", "equal": "Eq", "not_equal": "NotEq"}

    # ------------------------------------------------------------------ reductions
    def axisarg(self, nd, axis):
        return None if axis is None else self.I.pyint(axis) % max(nd.ndim, 1)

    def reduce(self, f, v, axis=None, keepdims=False):
        I = self.I
        if self.heapish(v):
            return I.dist(lambda z: self.reduce(f, z, axis, keepdims), v)
        if not self.isarr(v):
            return f([v])
        n = I.nd(self.asarray(v))
        if isinstance(axis, tuple):
            if len(axis) == n.ndim:
                axis = None
            else:
                raise Undecided("reduction over several axes")
        ax = self.axisarg(n, axis)
        if ax is None:
            r = f(list(n.reshape(-1)))
            if keepdims:
                return I.arr_from([r], (1,) * n.ndim)
            return r
        m = np.moveaxis(n, ax, -1)
        out = [f(list(m[i])) for i in np.ndindex(m.shape[:-1])]
        sh = m.shape[:-1]
        if keepdims:
            sh = n.shape[:ax] + (1,) + n.shape[ax + 1:]
        if sh == ():
            return out[0]
        return I.arr_from(out, sh)

    def rsum(self, xs):
        r = num(0)
        for x in xs:
            r = self.I.binop("Add", r, x)
        return r

    def rprod(self, xs):
        r = num(1)
        for x in xs:
            r = self.I.binop("Mult", r, x)
        return r

    def rmean(self, xs):
        return self.I.unint(self.rmean1(xs))

    def rmean1(self, xs):
        if not xs:
            return nf.NAN()
        return self.I.binop("Div", self.rsum(xs), num(len(xs)))

    def rvar(self, xs, ddof=0):
        m = self.rmean(xs)
        I = self.I
        s = num(0)
        for x in xs:
            d = I.binop("Sub", x, m)
            s = I.binop("Add", s, I.binop("Mult", d, d))
        return I.binop("Div", s, num(len(xs) - ddof))

    def rmax(self, xs):
        if not xs:
            raise AbsRaise("ValueError", "max of an empty sequence")
        r = xs[0]
        for x in xs[1:]:
            r = apply(lambda a, b: self.I.select("max", self.num(a), self.num(b)), r, x)
        return r

    def rmin(self, xs):
        if not xs:
            raise AbsRaise("ValueError", "min of an empty sequence")
        r = xs[0]
        for x in xs[1:]:
            r = apply(lambda a, b: self.I.select("min", self.num(a), self.num(b)), r, x)
        return r

    def rall(self, xs):
        r = True
        for x in xs:
            r = val.b_and(r, self.I.truth(x))
        return r

    def rany(self, xs):
        r = False
        for x in xs:
            r = val.b_or(r, self.I.truth(x))
        return r

    def cum(self, v, axis, op):
        I = self.I
        n = I.nd(self.asarray(v))
        if axis is None:
            n = n.reshape(-1)
            ax = 0
        else:
            ax = self.axisarg(n, axis)
        out = np.empty(n.shape, dtype=object)
        m, o = np.moveaxis(n, ax, -1), np.moveaxis(out, ax, -1)
        for i in np.ndindex(m.shape[:-1]):
            acc = None
            for k in range(m.shape[-1]):
                acc = m[i + (k,)] if acc is None else I.binop(op, acc, m[i + (k,)])
                o[i + (k,)] = acc
        return I.arr_from(list(out.reshape(-1)), n.shape)

    def dot(self, a, b):
        I = self.I
        if not self.isarr(a) or not self.isarr(b):
            return I.binop("Mult", a, b)
        x, y = I.nd(self.asarray(a)), I.nd(self.asarray(b))
        if x.ndim == 1 and y.ndim == 1:
            if len(x) != len(y):
                raise AbsRaise("ValueError", "shapes not aligned")
            return self.rsum([I.binop("Mult", p, q) for p, q in zip(x, y)])
        if x.ndim == 2 and y.ndim == 1:
            return I.arr_from([self.rsum([I.binop("Mult", p, q) for p, q in zip(row, y)]) for row in x], (x.shape[0],))
        if x.ndim == 1 and y.ndim == 2:
            return I.arr_from([self.rsum([I.binop("Mult", p, q) for p, q in zip(x, y[:, j])]) for j in range(y.shape[1])], (y.shape[1],))
        if x.ndim == 2 and y.ndim == 2:
            out = [self.rsum([I.binop("Mult", p, q) for p, q in zip(x[i], y[:, j])]) for i in range(x.shape[0]) for j in range(y.shape[1])]
            return I.arr_from(out, (x.shape[0], y.shape[1]))
        raise Undecided("dot of higher dimension")

    def arraylike(self, x):
        """an opaque number that may stand for an array."""
        return any(a.kind == "fn" and a.data[0] in ("opq", "item") for a in nf.direct_atom_list(x)) if hasattr(nf, "direct_atom_list") \
            else any(nf.ATOMS[k].kind == "fn" and nf.ATOMS[k].data[0] in ("opq", "item") for k in nf.direct_atoms(x))

    def from_nd(self, nd):
        return self.I.arr_from(list(nd.reshape(-1)), nd.shape)

    # ------------------------------------------------------------------ builtins
    def builtin(self, name, args, kw, node):
        I = self.I
        m = getattr(self, "b_" + name, None)
        if m is not None:
            return m(args, kw, node)
        if name in EXC_BASES:
            return OpqV(("exc", name))
        if name == "object_init":
            return None
        raise Undecided("builtin %s" % name)

    def b_object(self, args, kw, node):
        return self.I.new("ext", {}, "object")

    def b_isinstance(self, args, kw, node):
        I = self.I
        v, c = args
        if isinstance(v, Gam):
            return apply(lambda z: self.b_isinstance([z, c], kw, node), v)
        if isinstance(c, tuple):
            r = False
            for z in c:
                r = val.b_or(r, self.b_isinstance([v, z], kw, node))
            return r
        return self.isinst(v, c)

    def isinst(self, v, c):
        I = self.I
        if isinstance(c, ClassV):
            if isinstance(v, Ref) and I.rec(v).kind == "obj":
                return c in I.rec(v).meta.mro
            if isinstance(v, OpqV) and not (isinstance(v.key, tuple) and v.key and v.key[0] == "exc"):
                return val.opq_cond(("isinstance", v.key, c.name))
            return False
        path = c.name if isinstance(c, BuiltinV) else c.path if isinstance(c, ExtV) else None
        if path is None:
            raise Undecided("isinstance with %r" % (c,))
        leaf = path.split(".")[-1]
        if path == "object":
            return True
        if isinstance(v, OpqV):
            return val.opq_cond(("isinstance", v.key, path))
        if isinstance(v, bool):
            return leaf in ("bool", "int", "Number", "Real", "Integral", "Rational", "bool_")
        if isinstance(v, RF):
            isint = v.const() is not None and v.const().denominator == 1 or (v.const() is None and self.integral(v))
            if leaf in ("int", "Integral", "integer", "int64", "Rational"):
                return bool(isint) if leaf in ("int", "Integral", "Rational") else False
            if leaf in ("float", "float64", "floating"):
                if leaf == "float64" or leaf == "floating":
                    return v.const() is None and not (len(v.num) == 1 and not v.den and self.plain(v))
                return not isint
            if leaf in ("Number", "Real", "complex", "Complex", "SupportsFloat"):
                return leaf != "complex" or any(a.kind == "I" for a in nf.atoms_of(v))
            if leaf in ("number", "generic"):
                return v.const() is None and not self.plain(v)
            return False
        if isinstance(v, ArrV):
            return leaf in ("ndarray", "Iterable", "Sized", "Container", "Collection")
        if isinstance(v, (str, StrV)):
            return leaf in ("str", "Sequence", "Iterable", "Hashable", "Collection", "Sized", "str_")
        if isinstance(v, tuple):
            return leaf in ("tuple", "Sequence", "Iterable", "Hashable", "Collection", "Sized")
        if v is None:
            return leaf in ("NoneType",)
        if isinstance(v, Ref):
            r = I.rec(v)
            if r.kind == "list":
                return leaf in ("list", "Sequence", "MutableSequence", "Iterable", "Collection", "Sized")
            if r.kind == "dict":
                return leaf in ("dict", "Mapping", "MutableMapping", "Iterable", "Collection", "Sized")
            if r.kind == "set":
                return leaf in ("set", "Iterable", "Collection", "Sized")
            if r.kind == "obj":
                def exb(cl):
                    for b in I.external_bases(cl):
                        if (isinstance(b, ExtV) and b.path == path) or (isinstance(b, BuiltinV) and b.name == path):
                            return True
                    return False
                if leaf == "Iterable":
                    return I.class_attr(r.meta, "__iter__")[1] is not None
                if leaf == "Callable":
                    return I.class_attr(r.meta, "__call__")[1] is not None
                return exb(r.meta)
            return False
        if isinstance(v, (ClassV,)):
            return leaf in ("type", "Callable", "Hashable", "ABCMeta")
        if isinstance(v, (FuncV, BoundV, PyFn, PartialV)):
            return leaf in ("Callable", "FunctionType" if isinstance(v, FuncV) else "MethodType")
        if isinstance(v, RangeV):
            return leaf in ("range", "Sequence", "Iterable")
        return False

    def plain(self, v):
        if v.den or len(v.num) != 1:
            return False
        (m, c), = v.num.items()
        return c == 1 and len(m) == 1 and m[0][1] == 1 and nf.ATOMS[m[0][0]].kind == "sym"

    def b_issubclass(self, args, kw, node):
        a, b = args
        if isinstance(b, tuple):
            return any(self.b_issubclass([a, z], kw, node) for z in b)
        if isinstance(a, ClassV):
            if isinstance(b, ClassV):
                return b in a.mro
            return any(x == b for x in self.I.external_bases(a))
        raise Undecided("issubclass")

    def b_type(self, args, kw, node):
        I = self.I
        v = args[0]
        if isinstance(v, Gam):
            return apply(lambda z: self.b_type([z], kw, node), v)
        if isinstance(v, Ref):
            r = I.rec(v)
            if r.kind == "obj":
                return r.meta
            if r.kind in ("list", "dict", "set"):
                return BuiltinV(r.kind)
        if isinstance(v, ArrV):
            return ExtV("numpy.ndarray")
        if isinstance(v, bool):
            return BuiltinV("bool")
        if isinstance(v, RF):
            c = v.const()
            return BuiltinV("int" if c is not None and c.denominator == 1 else "float")
        if isinstance(v, (str, StrV)):
            return BuiltinV("str")
        if isinstance(v, tuple):
            return BuiltinV("tuple")
        if isinstance(v, ClassV):
            return BuiltinV("type")
        if v is None:
            return ExtV("types.NoneType")
        return OpqV(("type", I.encode(v)))

    def b_len(self, args, kw, node):
        I = self.I
        v = args[0]
        if isinstance(v, Gam):
            return I.dist(lambda z: self.b_len([z], kw, node), v)
        if isinstance(v, ArrV):
            if v.idx.ndim == 0:
                raise AbsRaise("TypeError", "len() of unsized object", node, I.loc(node))
            return self.length(v.shape[0])
        if isinstance(v, (tuple, str)):
            return num(len(v))
        if isinstance(v, RangeV):
            return num(len(v.items()))
        if isinstance(v, Ref):
            r = I.rec(v)
            if r.kind in ("list", "dict", "set"):
                return num(len(r.data))
            if r.kind == "obj":
                f, _ = I.class_attr(r.meta, "__len__")
                if f is not None:
                    return I.call(BoundV(f, v), [], {}, node)
            if r.kind == "poison":
                raise Undecided("container with different shapes on different paths")
        if isinstance(v, OpqDict):
            return num(len(I.rec(v.o).data))
        if isinstance(v, StrV):
            return nf.fn("strlen", I.encode(v), integer=True)
        if isinstance(v, OpqV) or (isinstance(v, RF) and self.arraylike(v)):
            return nf.fn("len", I.encode(v), integer=True)
        raise AbsRaise("TypeError", "object has no len()", node, I.loc(node))

    def b_range(self, args, kw, node):
        def conv(v):
            v = self.scalar(v)
            if isinstance(v, bool):
                return num(int(v))
            if isinstance(v, RF) and v.const() is not None and v.const().denominator != 1:
                raise AbsRaise("TypeError", "range() needs an integer")
            if v is None or isinstance(v, (str, StrV)):
                raise AbsRaise("TypeError", "range() needs an integer")
            return v
        args = [conv(a) for a in args]
        if any(isinstance(a, Gam) for a in args):
            raise Undecided("gated range")
        if len(args) == 1:
            return RangeV(num(0), args[0], num(1))
        if len(args) == 2:
            return RangeV(args[0], args[1], num(1))
        return RangeV(*args)

    def b_enumerate(self, args, kw, node):
        s = kw.get("start", args[1] if len(args) > 1 else num(0))
        return self.I.mklist([(self.I.binop("Add", s, num(i)), x) for i, x in enumerate(self.I.iterate(args[0]))])

    def b_zip(self, args, kw, node):
        return self.I.new("iter", [tuple(t) for t in zip(*self.together(args))])

    def b_map(self, args, kw, node):
        its = self.together(args[1:])
        return self.I.new("iter", [self.I.call(args[0], list(t), {}, node) for t in zip(*its)])

    def take(self, v, n):
        """the first n items of an iterable, leaving the rest in a one-shot iterator"""
        I = self.I
        if isinstance(v, Ref) and I.rec(v).kind == "count":
            out = []
            d = I.mut(v, event=False).data
            for _ in range(n):
                out.append(d[0])
                d[0] = I.binop("Add", d[0], d[1])
            return out
        if isinstance(v, Ref) and I.rec(v).kind == "iter":
            d = I.mut(v, event=False).data
            out = d[:n]
            del d[:n]
            return out
        return I.iterate(v)[:n]

    def together(self, args):
        I = self.I
        lazy = [isinstance(a, Ref) and I.rec(a).kind in ("iter", "count") for a in args]
        if not any(lazy):
            return [I.iterate(a) for a in args]
        done = [None if z else I.iterate(a) for a, z in zip(args, lazy)]
        ns = [len(x) for x in done if x is not None]
        ns += [len(I.rec(a).data) for a, z in zip(args, lazy) if z and I.rec(a).kind == "iter"]
        if not ns:
            raise Undecided("infinite iteration")
        n = min(ns)
        out = []
        short = False
        for a, x in zip(args, done):
            if x is None:
                # an iterator before the exhausted one loses one more item
                more = not short and any(y is not None and len(y) == n for y in done[len(out) + 1:])
                x = self.take(a, n + (1 if more else 0))
            short = short or len(x) == n
            out.append(x[:n])
        return out

    def b_filter(self, args, kw, node):
        out = []
        for x in self.I.iterate(args[1]):
            c = self.I.decide(self.I.truth(x if args[0] is None else self.I.call(args[0], [x], {}, node)))
            if c is True:
                out.append(x)
            elif c is not False:
                raise Undecided("filter on a symbolic condition")
        return self.I.new("iter", out)

    def b_iter(self, args, kw, node):
        if isinstance(args[0], Ref) and self.I.rec(args[0]).kind in ("iter", "count"):
            return args[0]
        return self.I.new("iter", self.I.iterate(args[0]))

    def b_next(self, args, kw, node):
        v = args[0]
        I = self.I
        if isinstance(v, Ref) and I.rec(v).kind in ("iter", "list"):
            d = I.mut(v, event=False).data
            if d:
                return d.pop(0)
            if len(args) > 1:
                return args[1]
            raise AbsRaise("StopIteration", "", node, I.loc(node))
        if isinstance(v, Ref) and I.rec(v).kind == "count":
            return self.take(v, 1)[0]
        raise Undecided("next()")

    def b_abs(self, args, kw, node):
        return self.el1(nf.absolute, args[0])

    def b_max(self, args, kw, node):
        return self.extremum(self.rmax, args, kw, node)

    def b_min(self, args, kw, node):
        return self.extremum(self.rmin, args, kw, node)

    def extremum(self, f, args, kw, node):
        I = self.I
        items = I.iterate(args[0]) if len(args) == 1 else list(args)
        if "key" in kw and kw["key"] is not None:
            ks = [I.call(kw["key"], [x], {}, node) for x in items]
            cs = [k.const() if isinstance(k, RF) else None for k in ks]
            if any(c is None for c in cs):
                raise Undecided("max with a symbolic key")
            best = max(cs) if f == self.rmax else min(cs)
            return items[cs.index(best)]
        if not items and "default" in kw:
            return kw["default"]
        if any(isinstance(x, str) for x in items):
            if all(isinstance(x, str) for x in items):
                return max(items) if f == self.rmax else min(items)
            raise AbsRaise("TypeError", "unorderable")
        if any(isinstance(x, ArrV) and x.idx.size > 1 for x in items):
            raise AbsRaise("ValueError", "truth value of an array is ambiguous", node, I.loc(node))
        items = [self.scalar(x) for x in items]
        return f(items)

    def b_sum(self, args, kw, node):
        I = self.I
        s = args[1] if len(args) > 1 else kw.get("start", num(0))
        for x in I.iterate(args[0]):
            s = I.binop("Add", s, x, node)
        return s

    def b_round(self, args, kw, node):
        I = self.I
        v = args[0]
        d = args[1] if len(args) > 1 else kw.get("ndigits", kw.get("decimals"))
        if isinstance(v, ArrV):
            if v.idx.size != 1 and False:
                pass
            return self.el1(lambda x: self.rnd(x, d), v)
        if isinstance(v, Ref) or v is None or isinstance(v, (str, StrV, tuple)):
            raise AbsRaise("TypeError", "type doesn't define __round__", node, I.loc(node))
        return apply(lambda x: self.rnd(self.num(x), d), v)

    def rnd(self, x, d):
        c = x.const()
        if c is not None and (d is None or d.const() is not None):
            r = round(c, int(d.const())) if d is not None else Fr(round(c))
            return taint(num(Fr(r)), x, op="round" if d is None else None)
        if nf.eq(x, nf.NAN()):
            return x
        return nf.fn("round", x, d if d is not None else num(0))

    def b_float(self, args, kw, node):
        if not args:
            return num(0)
        v = args[0]
        if isinstance(v, str):
            s = v.strip().lower()
            if s in ("inf", "+inf", "infinity"):
                return nf.INF()
            if s == "-inf":
                return nf.neg(nf.INF())
            if s == "nan":
                return nf.NAN()
            try:
                return num(Fr(s))
            except ValueError:
                raise AbsRaise("ValueError", "could not convert string to float", node, self.I.loc(node))
        if self.heapish(v):
            return self.I.dist(lambda z: self.b_float([z], kw, node), v)
        v = self.scalar(v)
        return self.I.unint(apply(lambda z: self.num(z), v))

    def b_int(self, args, kw, node):
        if not args:
            return num(0)
        v = args[0]
        if isinstance(v, str):
            try:
                return num(int(v))
            except ValueError:
                raise AbsRaise("ValueError", "invalid literal for int()", node, self.I.loc(node))
        return apply(lambda z: self.floorlike("int", self.num(z)), self.scalar(v))

    def b_bool(self, args, kw, node):
        return self.I.truth(args[0]) if args else False

    def b_complex(self, args, kw, node):
        r = self.num(args[0]) if args else num(0)
        if len(args) > 1:
            r = nf.add(r, nf.mul(nf.IM(), self.num(args[1])))
        return r

    def b_str(self, args, kw, node):
        return self.I.fmt(args[0]) if args else ""

    def b_repr(self, args, kw, node):
        return self.I.fmt(args[0], "", ord("r"))

    def b_format(self, args, kw, node):
        return self.I.fmt(args[0], args[1] if len(args) > 1 else "")

    def b_dict(self, args, kw, node):
        I = self.I
        pairs = []
        if args:
            v = args[0]
            if isinstance(v, OpqDict):
                v = v.todict(I)
            if isinstance(v, Ref) and I.rec(v).kind == "dict":
                pairs = list(I.rec(v).data.values())
            else:
                pairs = [tuple(I.iterate(x)) for x in I.iterate(v)]
        return I.mkdict(pairs + list(kw.items()))

    def b_list(self, args, kw, node):
        return self.I.mklist(self.I.iterate(args[0]) if args else [])

    def b_tuple(self, args, kw, node):
        return tuple(self.I.iterate(args[0])) if args else ()

    def b_set(self, args, kw, node):
        d = {}
        for k in (self.I.iterate(args[0]) if args else []):
            d[self.I.hkey(k)] = (k, True)
        return self.I.new("set", d)

    b_frozenset = b_set

    def b_print(self, args, kw, node):
        sep = kw.get("sep", " ")
        end = kw.get("end", "\n")
        parts = []
        for i, a in enumerate(args):
            if i:
                parts.append(" " if sep is None else sep)
            parts.append(self.I.fmt(a))
        parts.append("\n" if end is None else end)
        self.I.printed.append((self.I.cat(parts), dict(self.I.st.facts), self.I.loc(node)))
        return None

    def b_sorted(self, args, kw, node):
        I = self.I
        items = I.iterate(args[0])
        ks = [I.call(kw["key"], [x], {}, node) for x in items] if kw.get("key") is not None else items
        if all(isinstance(k, str) for k in ks):
            kk = ks
        elif all(isinstance(k, RF) and k.const() is not None for k in ks):
            kk = [k.const() for k in ks]
        else:
            raise Undecided("sort of symbolic values")
        order = sorted(range(len(items)), key=lambda i: kk[i], reverse=bool(kw.get("reverse", False)))
        return I.mklist([items[i] for i in order])

    def b_reversed(self, args, kw, node):
        return self.I.new("iter", self.I.iterate(args[0])[::-1])

    def b_any(self, args, kw, node):
        return self.rany(self.I.iterate(args[0]))

    def b_all(self, args, kw, node):
        return self.rall(self.I.iterate(args[0]))

    def b_getattr(self, args, kw, node):
        I = self.I
        if not isinstance(args[1], str):
            raise Undecided("getattr with a symbolic name")
        try:
            return I.getattr(args[0], args[1], node)
        except AbsRaise as e:
            if len(args) > 2 and e.exc == "AttributeError":
                return args[2]
            raise

    def b_hasattr(self, args, kw, node):
        I = self.I
        v = args[0]
        if not isinstance(args[1], str):
            raise Undecided("hasattr with a symbolic name")
        if isinstance(v, Gam):
            return apply(lambda z: self.b_hasattr([z, args[1]], kw, node), v)
        if isinstance(v, (RF, bool)):
            return args[1] in ("real", "imag", "conjugate", "__float__", "__add__", "__mul__", "is_integer")
        if isinstance(v, ArrV):
            return args[1] in ("shape", "size", "ndim", "dtype", "T", "__len__", "__iter__", "__getitem__", "sum", "mean",
                               "copy", "tolist", "reshape", "__array__", "flatten", "item", "astype")
        if isinstance(v, Ref) and I.rec(v).kind in ("list", "dict", "set"):
            k = I.rec(v).kind
            return args[1] in {"list": ("append", "extend", "pop", "__len__", "__iter__", "__getitem__", "copy", "sort"),
                               "dict": ("keys", "values", "items", "get", "__len__", "__iter__", "__getitem__", "copy", "update"),
                               "set": ("add", "__len__", "__iter__", "copy")}[k]
        if isinstance(v, (str, StrV)):
            return hasattr("", args[1])
        if isinstance(v, tuple):
            return hasattr((), args[1])
        if v is None:
            return hasattr(None, args[1])
        if isinstance(v, (FuncV, BoundV)):
            if args[1] in ("__call__", "__name__", "__doc__"):
                return True
        try:
            I.getattr(v, args[1], node)
            return True
        except AbsRaise as e:
            if e.exc == "AttributeError":
                return False
            raise

    def b_setattr(self, args, kw, node):
        if not isinstance(args[1], str):
            raise Undecided("setattr with a symbolic name")
        self.I.setattr(args[0], args[1], args[2], node)

    def b_delattr(self, args, kw, node):
        I = self.I
        o, n = args
        if isinstance(o, Ref) and I.rec(o).kind == "obj":
            d = I.mut(o, "delattr", n, node).data
            if n not in d:
                raise AbsRaise("AttributeError", n, node, I.loc(node))
            del d[n]
            return None
        raise Undecided("delattr")

    def b_callable(self, args, kw, node):
        v = args[0]
        if isinstance(v, (FuncV, BoundV, ClassV, PyFn, PartialV, BuiltinV, ExtV, MethV, DerivV)):
            return True
        if isinstance(v, Ref) and self.I.rec(v).kind == "obj":
            return self.I.class_attr(self.I.rec(v).meta, "__call__")[1] is not None
        return False

    def b_vars(self, args, kw, node):
        if args:
            return self.I.getattr(args[0], "__dict__", node)
        raise Undecided("vars()")

    def b_pow(self, args, kw, node):
        return self.I.binop("Pow", args[0], args[1], node)

    def b_id(self, args, kw, node):
        return nf.fn("id", self.I.encode(args[0]), integer=True)

    def b_hash(self, args, kw, node):
        return nf.fn("hash", self.I.encode(args[0]), integer=True)

    def b_divmod(self, args, kw, node):
        return (self.I.binop("FloorDiv", args[0], args[1], node), self.I.binop("Mod", args[0], args[1], node))

    def b_super(self, args, kw, node):
        if len(args) == 2:
            o = args[1]
            cls = self.I.rec(o).meta if isinstance(o, Ref) else o
            return SuperV(o, cls, args[0])
        raise Undecided("super()")

    def b_property(self, args, kw, node):
        return self.I.decorate(BuiltinV("property"), args[0], node)

    def b_staticmethod(self, args, kw, node):
        return self.I.decorate(BuiltinV("staticmethod"), args[0], node)

    def b_classmethod(self, args, kw, node):
        return self.I.decorate(BuiltinV("classmethod"), args[0], node)

    def b_slice(self, args, kw, node):
        a = list(args)
        if len(a) == 1:
            a = [None, a[0], None]
        return SliceV(*(a + [None] * (3 - len(a))))

    def b_ord(self, args, kw, node):
        return num(ord(args[0]))

    def b_chr(self, args, kw, node):
        return chr(self.I.pyint(args[0]))

    def b_globals(self, args, kw, node):
        fr = self.I.frames[-1]
        return self.I.getattr(fr.module, "__dict__", node)

    # ------------------------------------------------------------------ effects outside the program
    PROCESS = {
        "warnings": ("filterwarnings", "simplefilter", "resetwarnings"),
        "sys": ("setrecursionlimit", "setswitchinterval", "settrace", "setprofile", "exit", "set_int_max_str_digits", "displayhook", "excepthook"),
        "locale": ("setlocale",), "logging": ("basicConfig", "disable", "captureWarnings"), "decimal": ("setcontext", "getcontext"),
        "random": ("seed", "setstate"), "atexit": ("register",), "signal": ("signal", "alarm", "setitimer"), "gc": ("disable", "enable", "freeze"),
        "threading": ("Thread", "Timer"), "faulthandler": None, "subprocess": None, "shutil": None, "tempfile": None, "socket": None,
        "urllib": None, "requests": None, "pickle": ("dump",), "json": ("dump",), "io": ("open",), "codecs": ("open",), "webbrowser": None,
        "os": ("putenv", "unsetenv", "unlink", "remove", "mkdir", "makedirs", "rename", "replace", "chdir", "system", "popen", "rmdir", "removedirs",
               "umask", "nice", "kill", "abort", "_exit", "execv", "fork", "open", "write", "truncate", "chmod", "symlink", "link"),
        "scipy": ("seterr",),
    }
    NPROC = ("seterr", "seterrcall", "seterrobj", "setbufsize", "set_printoptions", "set_string_function", "seed", "set_state", "save", "savez",
             "savetxt", "savez_compressed", "tofile", "memmap")

    def effect(self, what, node):
        self.effects.append((what, self.I.loc(node) if node is not None else "", self.I.curfunc()))

    def note_effect(self, path, top, leaf, args, kw, node):
        if top == "numpy":
            if leaf in self.NPROC and leaf != "seterr" and not (leaf == "set_printoptions" and "printoptions" in self.guarded):
                self.effect("%s changes the process-wide %s" % (path, "numpy settings" if leaf.startswith("set") else "random state" if leaf == "seed" else "files"), node)
            return
        if top == "matplotlib":
            if leaf in ("use", "rc", "rcdefaults", "rc_file", "switch_backend", "ion", "ioff", "update", "xkcd", "savefig") and "rc_context" not in self.guarded:
                self.effect("%s changes process-wide plot settings or files" % path, node)
            else:
                self.effects.append(("figure", self.I.loc(node), self.I.curfunc()))
            return
        if top in self.PROCESS:
            names = self.PROCESS[top]
            if names is None or leaf in names:
                if top == "warnings" and "catch_warnings" in self.guarded:
                    return
                self.effect("%s acts on the whole process or its files" % path, node)

    def b_open(self, args, kw, node):
        self.effect("open() touches a file", node)
        raise Undecided("open")

    # ------------------------------------------------------------------ external calls
    def call(self, path, args, kw, node):
        I = self.I
        mod, _, leaf = path.rpartition(".")
        top = path.split(".")[0]
        self.note_effect(path, top, leaf, args, kw, node)
        if top == "matplotlib":
            self.drawn.append((leaf, list(args), dict(kw), I.loc(node)))
            if leaf == "subplots":
                nr = [args[i] if i < len(args) else kw.get(k, num(1)) for i, k in enumerate(("nrows", "ncols"))]
                if all(isinstance(x, RF) and nf.eq(x, num(1)) for x in nr):
                    return (OpqV(("ext", "figure")), OpqV(("ext", "axes")))
                raise Undecided("several axes")
            return OpqV(("ext", "figure")) if leaf in ("figure", "gcf") else OpqV(("ext", "axes")) if leaf in ("gca", "axes", "subplot") else OpqV(("ext", path))
        if path in ("sys.stdout.write", "sys.stderr.write"):
            I.printed.append((I.fmt(args[0]), dict(I.st.facts), I.loc(node)))
            return None
        if top in ("numpy", "math", "cmath") or path.startswith("scipy.special."):
            r = self.numpy_call(path, mod, leaf, args, kw, node)
            if r is not NotImplemented:
                return r
        if top == "builtins":
            cn = mod.split(".")[-1]
            if path == "builtins.object.__new__":
                return I.new("obj", {}, args[0])
            if path == "builtins.object.__setattr__":
                return I.setattr_raw(args[0], args[1], args[2], node)
            if path in ("builtins.object.__init__", "builtins.object.__init_subclass__"):
                return None
            if path == "builtins.object.__getattribute__":
                return I.getattr(args[0], args[1], node)
            if path == "builtins.dict.fromkeys":
                return I.mkdict([(x, args[1] if len(args) > 1 else None) for x in I.iterate(args[0])])
            if leaf not in ("fromkeys", "maketrans", "from_bytes", "fromhex") and cn in ("str", "list", "dict", "set", "tuple", "float", "int") and args:
                return self.method(args[0], leaf, args[1:], kw, node)
            raise Undecided(path)
        if top == "operator":
            r = self.operator_call(leaf, args, kw, node)
            if r is not NotImplemented:
                return r
        if top == "copy":
            if leaf == "deepcopy":
                return self.deepcopy(args[0], {})
            if leaf == "copy":
                return self.shallow(args[0])
            if leaf == "replace":
                raise Undecided("copy.replace")
        if top == "contextlib" and leaf == "suppress":
            return OpqV(("suppress", tuple(I.exc_name(a) for a in args)))
        if top == "contextlib" and leaf == "nullcontext":
            return args[0] if args else None
        if top in ("warnings", "logging"):
            for a in args:
                self.I.fmt(a) if isinstance(a, (str, StrV)) else None
            return OpqV(("ext", path)) if leaf in ("getLogger", "catch_warnings") else None
        if top == "typing":
            return args[1] if leaf == "cast" else OpqV(("ext", path))
        if top == "functools":
            if leaf == "partial":
                return PartialV(args[0], args[1:], dict(kw))
            if leaf == "reduce":
                items = I.iterate(args[1])
                if len(args) > 2:
                    items = [args[2]] + items
                if not items:
                    raise AbsRaise("TypeError", "reduce of empty sequence", node, I.loc(node))
                acc = items[0]
                for x in items[1:]:
                    acc = I.call(args[0], [acc, x], {}, node)
                return acc
            if leaf in ("wraps", "update_wrapper"):
                return PyFn("wraps", lambda I2, a, k, n: a[0]) if leaf == "wraps" else args[0]
            if leaf in ("lru_cache", "cache"):
                def deco(I2, a, k, n):
                    return I2.decorate(ExtV("functools.lru_cache"), a[0], n)
                return PyFn("lru_cache", deco) if not (args and isinstance(args[0], FuncV)) else I.decorate(ExtV("functools.lru_cache"), args[0], node)
        if top == "itertools":
            r = self.itertools_call(leaf, args, kw, node)
            if r is not NotImplemented:
                return r
        if top == "dataclasses":
            if leaf == "field":
                if "default_factory" in kw:
                    return PartialV("default_factory", [kw["default_factory"]], {})
                return kw["default"] if "default" in kw else OpqV(("field", None))
            if leaf == "dataclass":
                return PyFn("dataclass", lambda I2, a, k, n: a[0])
            if leaf in ("replace", "asdict", "astuple"):
                return self.dataclass_call(leaf, args, kw, node)
        if top == "collections":
            if leaf == "OrderedDict":
                return self.b_dict(args, kw, node)
            if leaf == "defaultdict":
                r = self.b_dict(args[1:], kw, node)
                I.rec(r).meta = ("defaultdict", args[0]) if args else None
                return r
            if leaf == "deque":
                return self.b_list(args, {}, node)
            if leaf == "namedtuple":
                fs = args[1] if isinstance(args[1], str) else None
                fs = fs.replace(",", " ").split() if fs is not None else I.iterate(args[1])
                cls = ClassV(args[0], [], I.frames[-1].module if I.frames else None, ast.parse("class %s: pass" % args[0]).body[0], I.new("scope", {}))
                I.make_namedtuple(cls, fs)
                dv = kw.get("defaults")
                if dv is not None:
                    dv = I.iterate(dv)
                    for f, v in zip(fs[len(fs) - len(dv):], dv):
                        I.rec(cls.attrs_id).data[f] = v
                return cls
        if top == "types" and leaf == "MethodType":
            return BoundV(args[0], args[1])
        if top == "types" and leaf == "SimpleNamespace":
            return I.new("ext", dict(kw), "namespace")
        if top == "abc":
            return OpqV(("ext", path))
        if path.startswith("scipy.stats"):
            r = self.stats_call(path, leaf, args, kw, node)
            if r is not NotImplemented:
                return r
        if path.startswith("scipy.optimize"):
            r = self.optimize_call(leaf, args, kw, node)
            if r is not NotImplemented:
                return r
        if path.startswith("scipy.integrate"):
            if leaf == "quad":
                return self.quad(args, kw, node)
        if path.startswith("numdifftools"):
            if leaf == "Derivative":
                a = list(args)
                opts = dict(kw)
                for n, v in zip(("step", "method", "order", "n"), a[1:]):
                    opts[n] = v
                return DerivV(a[0], opts)
        if top in ("time", "random", "secrets", "uuid", "datetime", "os", "socket", "getpass", "platform") and \
                not path.startswith("os.path"):
            self.rand += 1
            I.rand_events.append(("environment", path, I.curfunc()))
            return nf.fn("env", path, num(self.rand))
        self.unmodelled.setdefault(path, set()).add(I.loc(node))
        # unknown library function: a pure function of its arguments that may also read the arrays it is given
        try:
            enc = tuple(I.encode(a) for a in args) + tuple((k, I.encode(v)) for k, v in sorted(kw.items()))
        except Undecided:
            raise Undecided("call of the unmodelled function %s" % path)
        return OpqV(("extcall", path) + enc)

    # ------------------------------------------------------------------ numpy / math
    def numpy_call(self, path, mod, leaf, args, kw, node):
        I = self.I
        if path.startswith("numpy.random."):
            return self.random_call(leaf, args, kw, node)
        if path.startswith("numpy.linalg."):
            return NotImplemented
        if leaf in ("reduce", "accumulate", "outer", "reduceat", "at") and mod.startswith("numpy.") and mod.count(".") == 1:
            uf = mod.split(".")[1]
            fold = {"add": ("n_sum", "n_cumsum"), "multiply": ("n_prod", "n_cumprod"), "maximum": ("n_max", None), "minimum": ("n_min", None),
                    "logical_and": ("n_all", None), "logical_or": ("n_any", None)}.get(uf)
            if leaf == "reduce" and fold and set(kw) <= {"axis", "keepdims"}:
                x = self.shape(args[0])
                if len(args) == 1 and "axis" not in kw and len(x) > 1:
                    kw = dict(kw, axis=num(0))
                return getattr(self, fold[0])(args, kw, node)
            if leaf == "accumulate" and fold and fold[1] and not kw and len(args) == 1 and len(self.shape(args[0])) == 1:
                return getattr(self, fold[1])(args, kw, node)
            if leaf == "outer" and not kw and (uf in self.binary()) and len(args) == 2:
                x, y = I.nd(self.asarray(args[0])), I.nd(self.asarray(args[1]))
                f = self.binary()[uf]
                return I.arr_from([self.el2(f, p, q) for p in x.reshape(-1) for q in y.reshape(-1)], x.shape + y.shape)
            raise Undecided("numpy.%s.%s" % (uf, leaf))
        if kw.get("out") is not None or kw.get("where", True) is not True:
            if leaf not in ("where",):
                raise Undecided("numpy call with out/where")
        if I.int_ids:
            dt = [kw["dtype"]] if kw.get("dtype") is not None else list(args[1:2]) if leaf in ("array", "asarray", "zeros_like", "ones_like", "empty_like") else []
            if dt or leaf == "asfarray":
                r = self.numpy_call(path, mod, leaf, args[:1] if "dtype" not in kw else args, {k: v for k, v in kw.items() if k != "dtype"}, node) \
                    if dt else self.asarray(args[0])
                return I.arr_from([I.unint(x) for x in I.nd(r).reshape(-1)], r.shape) if isinstance(r, ArrV) else r
        kw = {k: v for k, v in kw.items() if k not in ("dtype", "out", "casting", "order", "subok", "like")}
        if mod == "math" and leaf in self.unary():
            args = [self.scalar(a) for a in args]
        if leaf == "log" and len(args) == 2:
            return self.el2(lambda a, b: nf.div(self.log(a), self.log(b)), args[0], args[1])
        if path.startswith("scipy.special."):
            if leaf == "ndtr":
                return self.el1(lambda x: nf.fn("Phi", x), args[0])
            if leaf == "ndtri":
                return self.el1(lambda x: nf.fn("ppf", x), args[0])
            if leaf == "expit":
                return self.el1(lambda x: nf.inv(nf.add(num(1), nf.exp(nf.neg(x)))), args[0])
            if leaf == "logit":
                return self.el1(lambda x: self.log(nf.div(x, nf.sub(num(1), x))), args[0])
            if leaf in ("comb", "binom"):
                return self.comb(args)
        if mod == "math" and leaf == "isclose":
            return self.n_isclose(args, kw, node)
        if mod == "math" and leaf in ("comb", "factorial", "gcd", "fsum", "prod", "isclose", "dist"):
            if leaf == "comb":
                return self.comb(args)
            if leaf == "factorial":
                import math
                return taint(num(math.factorial(I.pyint(args[0]))), args[0])
            if leaf == "fsum":
                return self.rsum(I.iterate(args[0]))
            if leaf == "prod":
                return self.rprod(I.iterate(args[0]))
        if leaf in self.unary():
            v = args[0] if args else kw.get("x", kw.get("a"))
            if leaf in ("real", "imag") and isinstance(v, ArrV):
                return self.el1(self.unary()[leaf], v)
            return self.el1(self.unary()[leaf], v)
        B = self.binary()
        if leaf in B and len(args) == 2:
            return self.el2(B[leaf], args[0], args[1])
        if leaf in self.CMP:
            return I.compare(self.CMP[leaf], args[0], args[1], node)
        if leaf in ("logical_and", "bitwise_and"):
            return self.boolop(val.b_and, args)
        if leaf in ("logical_or", "bitwise_or"):
            return self.boolop(val.b_or, args)
        if leaf in ("logical_not", "invert"):
            v = args[0]
            if self.isarr(v):
                return I.ufunc1(lambda x: val.b_not(I.truth(x)), self.asarray(v))
            return val.b_not(I.truth(v))
        m = getattr(self, "n_" + leaf, None)
        if m is not None:
            return m(args, kw, node)
        return NotImplemented

    def comb(self, args):
        import math
        return taint(num(math.comb(self.I.pyint(args[0]), self.I.pyint(args[1]))), *args)

    def boolop(self, f, args):
        I = self.I
        a, b = args
        if self.isarr(a) or self.isarr(b):
            x = I.nd(self.asarray(a)) if self.isarr(a) else a
            y = I.nd(self.asarray(b)) if self.isarr(b) else b
            return I.ufunc2(lambda p, q: f(I.truth(p), I.truth(q)), x, y)
        return f(I.truth(a), I.truth(b))

    def red(self, f, args, kw):
        v = args[0] if args else kw.get("a", kw.get("x"))
        axis = args[1] if len(args) > 1 else kw.get("axis")
        return self.reduce(f, v, axis, kw.get("keepdims", False) is True)

    def n_sum(self, a, k, n): return self.red(self.rsum, a, k)
    def n_nansum(self, a, k, n): return self.red(self.rsum, a, k)
    def n_prod(self, a, k, n): return self.red(self.rprod, a, k)
    def n_mean(self, a, k, n): return self.red(self.rmean, a, k)
    def n_average(self, a, k, n):
        if k.get("weights") is not None:
            w = self.I.iterate(k["weights"])
            x = self.I.iterate(a[0])
            s = self.rsum([self.I.binop("Mult", p, q) for p, q in zip(x, w)])
            return self.I.binop("Div", s, self.rsum(w))
        return self.red(self.rmean, a, k)
    def n_var(self, a, k, n):
        d = self.I.pyint(k.get("ddof", num(0)))
        return self.red(lambda xs: self.rvar(xs, d), a, k)
    def n_std(self, a, k, n):
        d = self.I.pyint(k.get("ddof", num(0)))
        return self.red(lambda xs: apply(nf.sqrt, self.rvar(xs, d)), a, k)
    def n_max(self, a, k, n): return self.red(self.rmax, a, k)
    def n_amax(self, a, k, n): return self.red(self.rmax, a, k)
    def n_min(self, a, k, n): return self.red(self.rmin, a, k)
    def n_amin(self, a, k, n): return self.red(self.rmin, a, k)
    n_nanmax, n_nanmin = n_max, n_min
    def n_all(self, a, k, n): return self.red(self.rall, a, k)
    def n_any(self, a, k, n): return self.red(self.rany, a, k)
    n_alltrue, n_sometrue = n_all, n_any

    def n_cumsum(self, a, k, n):
        return self.cum(a[0], a[1] if len(a) > 1 else k.get("axis"), "Add")

    def n_cumprod(self, a, k, n):
        return self.cum(a[0], a[1] if len(a) > 1 else k.get("axis"), "Mult")

    def n_diff(self, a, k, n):
        I = self.I
        x = I.nd(self.asarray(a[0]))
        if x.ndim != 1 or len(a) > 1 or set(k) - {"a"}:
            raise Undecided("diff")
        return I.arr_from([I.binop("Sub", q, p) for p, q in zip(x[:-1], x[1:])], (len(x) - 1,))

    def n_dot(self, a, k, n): return self.dot(a[0], a[1])
    n_matmul = n_dot
    n_inner = n_dot

    def n_outer(self, a, k, n):
        I = self.I
        x, y = I.iterate(a[0]), I.iterate(a[1])
        return I.arr_from([I.binop("Mult", p, q) for p in x for q in y], (len(x), len(y)))

    def arr_of(self, shape, v):
        n = int(np.prod(shape)) if shape else 1
        return self.I.arr_from([v] * n, shape)

    def n_zeros(self, a, k, n): return self.arr_of(self.ints(a[0] if a else k["shape"]), num(0))
    def n_ones(self, a, k, n): return self.arr_of(self.ints(a[0] if a else k["shape"]), num(1))

    def n_empty(self, a, k, n):
        sh = self.ints(a[0] if a else k["shape"])
        cnt = int(np.prod(sh)) if sh else 1
        self.opq += 1
        return self.I.arr_from([nf.fn("garbage", num(self.opq), num(i)) for i in range(cnt)], sh)

    def n_full(self, a, k, n):
        v = a[1] if len(a) > 1 else k["fill_value"]
        return self.arr_of(self.ints(a[0] if a else k["shape"]), v)

    def like(self, a, k, v):
        x = a[0] if a else k.get("a")
        return self.as_like(x, self.arr_of(self.shape(x), v))

    def as_like(self, x, r):
        """arrays made after an integer array are integer arrays"""
        I = self.I
        if I.int_ids and (I.int_arr(x) or id(x) in I.int_ids or I.int_arr(self.asarray(x))):
            d = I.rec(r.base).data
            d[:] = [I.trunc(z, None) for z in d]
            return I.as_int_arr(r)
        return r

    def n_zeros_like(self, a, k, n): return self.like(a, k, num(0))
    def n_ones_like(self, a, k, n): return self.like(a, k, num(1))
    def n_full_like(self, a, k, n): return self.like(a, k, a[1] if len(a) > 1 else k["fill_value"])
    def n_empty_like(self, a, k, n):
        x = a[0] if a else k.get("prototype")
        return self.as_like(x, self.n_empty([tuple(num(i) for i in self.shape(x))], {}, n))

    def n_eye(self, a, k, n):
        m = self.I.pyint(a[0])
        return self.I.arr_from([num(int(i == j)) for i in range(m) for j in range(m)], (m, m))

    n_identity = n_eye

    def n_array(self, a, k, n):
        v = a[0] if a else k.get("object")
        I = self.I
        if isinstance(v, ArrV):
            if k.get("copy", True) is False:
                return v
            r = self.from_nd(I.nd(v))
        else:
            if self.heapish(v):
                return I.dist(lambda z: self.n_array([z], k, n), v)
            r = self.asarray(v)
        if "ndmin" in k:
            m = I.pyint(k["ndmin"])
            if r.idx.ndim < m:
                return ArrV(r.base, r.idx.reshape((1,) * (m - r.idx.ndim) + r.shape))
        return r

    def n_asarray(self, a, k, n): return self.asarray(a[0] if a else k.get("a"))
    n_asanyarray = n_ascontiguousarray = n_asfarray = n_asarray

    def n_copy(self, a, k, n): return self.from_nd(self.I.nd(self.asarray(a[0])))

    def n_float64(self, a, k, n): return self.b_float(a, k, n)
    n_float32 = n_float_ = n_double = n_float64
    def n_int64(self, a, k, n): return self.b_int(a, k, n)
    n_int32 = n_intp = n_int64
    def n_bool_(self, a, k, n): return self.I.truth(a[0])
    def n_complex128(self, a, k, n): return self.b_complex(a, k, n)

    def n_atleast_1d(self, a, k, n):
        r = self.asarray(a[0])
        return r if r.idx.ndim else ArrV(r.base, r.idx.reshape(1))

    def n_atleast_2d(self, a, k, n):
        r = self.asarray(a[0])
        return r if r.idx.ndim >= 2 else ArrV(r.base, r.idx.reshape(1, -1))

    def n_arange(self, a, k, n):
        I = self.I
        a = [self.num(self.scalar(x)) for x in a]
        if not a:
            a = [k["stop"]] if "start" not in k else [k["start"], k["stop"]]
        start, stop, step = num(0), None, k.get("step", num(1))
        if len(a) == 1:
            stop = a[0]
        else:
            start, stop = a[0], a[1]
            if len(a) > 2:
                step = a[2]
        cs = [x.const() for x in (start, stop, step)]
        if any(c is None for c in cs):
            raise Undecided("arange with symbolic bounds")
        out = []
        x = cs[0]
        if cs[2] == 0:
            raise AbsRaise("ZeroDivisionError", "arange step 0")
        while (x < cs[1]) if cs[2] > 0 else (x > cs[1]):
            out.append(x)
            x += cs[2]
            if len(out) > 5000:
                raise Undecided("arange too long")
        return I.arr_from(range_items((start, stop, step), out), (len(out),))

    def n_linspace(self, a, k, n):
        I = self.I
        cnt = I.pyint(a[2] if len(a) > 2 else k.get("num", num(50)))
        end = k.get("endpoint", True)
        d = cnt - 1 if end is not False else cnt
        out = [I.binop("Add", a[0], I.binop("Mult", num(Fr(i, d) if d else Fr(0)), I.binop("Sub", a[1], a[0]))) for i in range(cnt)]
        return I.arr_from(out, (cnt,))

    def n_repeat(self, a, k, n):
        I = self.I
        v = a[0]
        r = I.pyint(a[1] if len(a) > 1 else k["repeats"])
        if not self.isarr(v):
            return I.arr_from([v] * r, (r,))
        x = I.nd(self.asarray(v))
        ax = a[2] if len(a) > 2 else k.get("axis")
        return self.from_nd(np.repeat(x, r, axis=None if ax is None else I.pyint(ax)))

    def n_tile(self, a, k, n):
        I = self.I
        x = I.nd(self.asarray(a[0]))
        return self.from_nd(np.tile(x, self.ints(a[1])))

    def n_concatenate(self, a, k, n):
        I = self.I
        parts = [I.nd(self.asarray(z)) for z in I.iterate(a[0])]
        ax = a[1] if len(a) > 1 else k.get("axis", num(0))
        try:
            if ax is None:
                return self.from_nd(np.concatenate([p.reshape(-1) for p in parts]))
            return self.from_nd(np.concatenate(parts, axis=I.pyint(ax)))
        except ValueError as e:
            raise AbsRaise("ValueError", str(e))

    def n_append(self, a, k, n):
        I = self.I
        x, y = I.nd(self.asarray(a[0])), I.nd(self.asarray(a[1]))
        ax = a[2] if len(a) > 2 else k.get("axis")
        try:
            if ax is None:
                return self.from_nd(np.concatenate([x.reshape(-1), y.reshape(-1)]))
            return self.from_nd(np.concatenate([x, y], axis=I.pyint(ax)))
        except ValueError as e:
            raise AbsRaise("ValueError", str(e))

    def stack(self, a, k, f):
        parts = [self.I.nd(self.asarray(z)) for z in self.I.iterate(a[0])]
        try:
            return self.from_nd(f(parts))
        except ValueError as e:
            raise AbsRaise("ValueError", str(e))

    def n_vstack(self, a, k, n): return self.stack(a, k, np.vstack)
    def n_hstack(self, a, k, n): return self.stack(a, k, np.hstack)
    def n_column_stack(self, a, k, n): return self.stack(a, k, np.column_stack)
    def n_stack(self, a, k, n):
        ax = a[1] if len(a) > 1 else k.get("axis", num(0))
        return self.stack(a, k, lambda p: np.stack(p, axis=self.I.pyint(ax)))

    def n_reshape(self, a, k, n):
        v = self.asarray(a[0])
        sh = self.ints(a[1] if len(a) > 1 else k.get("newshape", k.get("shape")))
        try:
            return ArrV(v.base, v.idx.reshape(sh))
        except ValueError as e:
            raise AbsRaise("ValueError", str(e))

    def view(self, v, f):
        v = self.asarray(v)
        return ArrV(v.base, f(v.idx))

    def n_ravel(self, a, k, n): return self.view(a[0], lambda x: x.reshape(-1))
    def n_transpose(self, a, k, n): return self.view(a[0], lambda x: x.T)
    def n_squeeze(self, a, k, n): return self.view(a[0], np.squeeze)
    def n_expand_dims(self, a, k, n):
        ax = self.I.pyint(a[1] if len(a) > 1 else k["axis"])
        return self.view(a[0], lambda x: np.expand_dims(x, ax))

    def n_flip(self, a, k, n):
        ax = a[1] if len(a) > 1 else k.get("axis")
        if isinstance(ax, tuple):
            ax = tuple(self.I.pyint(z) for z in ax)
        elif ax is not None:
            ax = self.I.pyint(ax)
        return self.view(a[0], lambda x: np.flip(x, axis=ax))

    def n_flipud(self, a, k, n): return self.view(a[0], np.flipud)
    def n_fliplr(self, a, k, n): return self.view(a[0], np.fliplr)
    def n_moveaxis(self, a, k, n): return self.view(a[0], lambda x: np.moveaxis(x, self.I.pyint(a[1]), self.I.pyint(a[2])))
    def n_swapaxes(self, a, k, n): return self.view(a[0], lambda x: np.swapaxes(x, self.I.pyint(a[1]), self.I.pyint(a[2])))

    def n_roll(self, a, k, n):
        s = self.I.pyint(a[1])
        ax = a[2] if len(a) > 2 else k.get("axis")
        return self.from_nd(np.roll(self.I.nd(self.asarray(a[0])), s, axis=None if ax is None else self.I.pyint(ax)))

    def n_diag(self, a, k, n): return self.from_nd(np.diag(self.I.nd(self.asarray(a[0]))))
    def n_triu(self, a, k, n):
        x = self.I.nd(self.asarray(a[0]))
        kk = self.I.pyint(a[1]) if len(a) > 1 else self.I.pyint(k.get("k", num(0)))
        out = x.copy()
        for i, j in np.ndindex(x.shape):
            if j - i < kk:
                out[i, j] = num(0)
        return self.from_nd(out)

    def n_tril(self, a, k, n):
        x = self.I.nd(self.asarray(a[0]))
        kk = self.I.pyint(a[1]) if len(a) > 1 else self.I.pyint(k.get("k", num(0)))
        out = x.copy()
        for i, j in np.ndindex(x.shape):
            if j - i > kk:
                out[i, j] = num(0)
        return self.from_nd(out)

    def n_broadcast_to(self, a, k, n):
        v = self.asarray(a[0])
        sh = self.ints(a[1] if len(a) > 1 else k["shape"])
        try:
            return ArrV(v.base, np.broadcast_to(v.idx, sh))
        except ValueError as e:
            raise AbsRaise("ValueError", str(e))

    def n_broadcast_arrays(self, a, k, n):
        vs = [self.asarray(x) for x in a]
        try:
            idx = np.broadcast_arrays(*[v.idx for v in vs])
        except ValueError as e:
            raise AbsRaise("ValueError", str(e))
        return self.I.mklist([ArrV(v.base, np.array(i)) for v, i in zip(vs, idx)])

    def n_pad(self, a, k, n):
        I = self.I
        x = I.nd(self.asarray(a[0]))
        w = a[1] if len(a) > 1 else k["pad_width"]

        def py(v):
            if isinstance(v, (tuple, Ref, ArrV)):
                return tuple(py(z) for z in I.iterate(v))
            return I.pyint(v)
        mode = a[2] if len(a) > 2 else k.get("mode", "constant")
        if mode == "constant":
            cv = k.get("constant_values", num(0))
            ii = np.arange(1, x.size + 1).reshape(x.shape)
            p = np.pad(ii, py(w), mode="constant")
            flat = x.reshape(-1)
            out = np.empty(p.shape, dtype=object)
            for ix in np.ndindex(p.shape):
                out[ix] = flat[p[ix] - 1] if p[ix] else cv
            return self.from_nd(out)
        ii = np.arange(x.size).reshape(x.shape)
        p = np.pad(ii, py(w), mode=mode)
        flat = x.reshape(-1)
        out = np.empty(p.shape, dtype=object)
        for ix in np.ndindex(p.shape):
            out[ix] = flat[p[ix]]
        return self.from_nd(out)

    def n_where(self, a, k, n):
        I = self.I
        if len(a) == 1:
            x = I.nd(self.asarray(a[0]))
            ts = [I.decide(I.truth(z)) for z in x.reshape(-1)]
            if any(not isinstance(t, bool) for t in ts):
                raise Undecided("where on a symbolic condition")
            ix = np.nonzero(np.array(ts).reshape(x.shape))
            return tuple(I.arr_from([num(int(j)) for j in z], (len(z),)) for z in ix)
        c, p, q = a
        for z in (c, p, q):
            if self.heapish(z):
                return I.dist(lambda y: self.n_where([y if w is z else w for w in (c, p, q)], k, n), z)
        cx = I.nd(self.asarray(c))
        px, qx = I.nd(self.asarray(p)), I.nd(self.asarray(q))
        try:
            cx, px, qx = np.broadcast_arrays(cx, px, qx)
        except ValueError as e:
            raise AbsRaise("ValueError", str(e))
        out = []
        for i in np.ndindex(cx.shape):
            t = I.truth(cx[i])
            out.append(ite(t, px[i], qx[i]))
        if I.int_ids and not all(id(z) in I.int_ids for y in (px, qx) for z in y.reshape(-1)):
            out = [I.unint(z) for z in out]
        return I.arr_from(out, cx.shape)

    def n_select(self, a, k, n):
        conds, vals = self.I.iterate(a[0]), self.I.iterate(a[1])
        r = a[2] if len(a) > 2 else k.get("default", num(0))
        for c, v in list(zip(conds, vals))[::-1]:
            r = self.n_where([c, v, r], {}, n)
        return r

    def n_clip(self, a, k, n):
        v = a[0]
        lo = a[1] if len(a) > 1 else k.get("a_min", k.get("min"))
        hi = a[2] if len(a) > 2 else k.get("a_max", k.get("max"))
        if lo is not None:
            v = self.el2(lambda x, y: nf.maximum(x, y), v, lo)
        if hi is not None:
            v = self.el2(lambda x, y: nf.minimum(x, y), v, hi)
        return v

    def n_round(self, a, k, n):
        d = a[1] if len(a) > 1 else k.get("decimals", num(0))
        return self.el1(lambda x: self.rnd(x, d), a[0])

    n_around = n_round_ = n_round

    def n_array2string(self, a, k, n):
        return mkstr([("v", self.I.encode(a[0]), "array2string", 0)])

    n_array_repr = n_array_str = n_array2string

    def n_size(self, a, k, n):
        return num(int(np.prod(self.shape(a[0]))) if self.shape(a[0]) else 1)

    def n_shape(self, a, k, n): return tuple(num(i) for i in self.shape(a[0]))
    def n_ndim(self, a, k, n): return num(len(self.shape(a[0])))
    def n_isscalar(self, a, k, n): return isinstance(a[0], (RF, bool, str, StrV))
    def n_iscomplexobj(self, a, k, n): raise Undecided("iscomplexobj")

    def n_isclose(self, a, k, n):
        if len(a) >= 2 and not self.isarr(a[0]) and not self.isarr(a[1]):
            x, y = self.I.tonum(a[0]), self.I.tonum(a[1])
            if isinstance(x, RF) and isinstance(y, RF) and nf.eq(x, y):
                return True
            if len(a) == 2 and not k and isinstance(x, RF) and isinstance(y, RF) and x.const() is not None and y.const() is not None \
                    and abs(x.const() - y.const()) > Fr(1, 1000) * (1 + abs(x.const()) + abs(y.const())):
                return False
        raise Undecided("isclose")

    n_allclose = n_isclose

    def n_array_equal(self, a, k, n):
        if self.shape(a[0]) != self.shape(a[1]):
            return False
        return self.reduce(self.rall, self.I.compare("Eq", a[0], a[1], n))

    def n_ndindex(self, a, k, n):
        sh = self.ints(a[0] if len(a) == 1 else tuple(a))
        return self.I.mklist([tuple(num(i) for i in t) for t in np.ndindex(*sh)])

    def n_ndenumerate(self, a, k, n):
        x = self.I.nd(self.asarray(a[0]))
        return self.I.mklist([(tuple(num(i) for i in t), x[t]) for t in np.ndindex(*x.shape)])

    def n_meshgrid(self, a, k, n):
        xs = [self.I.nd(self.asarray(v)) for v in a]
        ix = np.meshgrid(*[np.arange(x.size) for x in xs], indexing=k.get("indexing", "xy"))
        return self.I.mklist([self.from_nd(x.reshape(-1)[i]) for x, i in zip(xs, ix)])

    def n_vectorize(self, a, k, n):
        f = a[0]

        def fn(I, args, kw2, node):
            arrs = [I.nd(self.asarray(v)) if self.isarr(v) else v for v in args]
            if not any(isinstance(x, np.ndarray) for x in arrs):
                return I.call(f, args, kw2, node)
            b = np.broadcast_arrays(*[x if isinstance(x, np.ndarray) else np.array(x, dtype=object) for x in arrs])
            out = [I.call(f, [x[i] for x in b], kw2, node) for i in np.ndindex(b[0].shape)]
            return I.arr_from(out, b[0].shape)
        return PyFn("vectorize", fn)

    def n_polyval(self, a, k, n):
        I = self.I
        r = num(0)
        for c in I.iterate(a[0]):
            r = I.binop("Add", I.binop("Mult", r, a[1]), c)
        return r

    def n_trapz(self, a, k, n):
        if set(k) - {"y", "x", "dx"} or len(a) > 3:
            raise Undecided("trapz")
        I = self.I
        y = I.iterate(a[0] if a else k["y"])
        x = a[1] if len(a) > 1 else k.get("x")
        dx = a[2] if len(a) > 2 else k.get("dx", num(1))
        if any(self.isarr(v) for v in y):
            raise Undecided("trapz")
        ws = [dx] * (len(y) - 1)
        if x is not None:
            x = I.iterate(x)
            ws = [I.binop("Sub", q, p) for p, q in zip(x, x[1:])]
        half = nf.rf_const(Fr(1, 2))
        return self.rsum([I.binop("Mult", I.binop("Mult", w, half), I.binop("Add", p, q)) for w, p, q in zip(ws, y, y[1:])])

    n_trapezoid = n_trapz

    def n_triu_indices(self, a, k, n, f=np.triu_indices):
        if any(not isinstance(z, RF) for z in list(a) + list(k.values())):
            raise Undecided("index construction")
        ix = f(*[self.I.pyint(z) for z in a], **{q: self.I.pyint(z) for q, z in k.items()})
        return tuple(self.I.arr_from([num(int(z)) for z in d], d.shape) for d in ix)

    def n_tril_indices(self, a, k, n): return self.n_triu_indices(a, k, n, np.tril_indices)
    def n_diag_indices(self, a, k, n): return self.n_triu_indices(a, k, n, np.diag_indices)

    def n_einsum(self, a, k, n):
        I = self.I
        if k or not isinstance(a[0], str) or "." in a[0]:
            raise Undecided("einsum")
        ins, _, out = a[0].replace(" ", "").partition("->")
        ins = ins.split(",")
        if "->" not in a[0]:
            al = "".join(ins)
            out = "".join(sorted(c for c in set(al) if al.count(c) == 1))
        xs = [I.nd(self.asarray(v)) for v in a[1:]]
        dim = {}
        if len(ins) != len(xs):
            raise AbsRaise("ValueError", "einsum operands", n, I.loc(n))
        for t, x in zip(ins, xs):
            if len(t) != x.ndim:
                raise AbsRaise("ValueError", "einsum subscripts", n, I.loc(n))
            for c, d in zip(t, x.shape):
                if dim.setdefault(c, d) != d:
                    raise AbsRaise("ValueError", "einsum dimensions", n, I.loc(n))
        summed = [c for c in dim if c not in out]
        res = []
        for o in np.ndindex(*[dim[c] for c in out]):
            env = dict(zip(out, o))
            ts = []
            for q in np.ndindex(*[dim[c] for c in summed]):
                env.update(zip(summed, q))
                ts.append(self.rprod([x[tuple(env[c] for c in t)] for t, x in zip(ins, xs)]))
            res.append(self.rsum(ts))
        if not out:
            return res[0]
        return I.arr_from(res, tuple(dim[c] for c in out))

    def n_fill_diagonal(self, a, k, n):
        raise Undecided("fill_diagonal")

    def n_seterr(self, a, k, n):
        old = self.n_geterr(a, k, n)
        ks = ("divide", "over", "under", "invalid")
        new = dict(zip(("all",) + ks, a))
        new.update(k)
        al = new.pop("all", None)
        for x in ks:
            v = new.get(x) if new.get(x) is not None else al
            if v is not None:
                self.errset[x] = v
        return old

    def n_geterr(self, a, k, n):
        return self.I.mkdict([(x, self.errset[x]) for x in ("divide", "over", "under", "invalid")])

    def n_errstate(self, a, k, n):
        return OpqV(("ext", "numpy.errstate"))

    def n_printoptions(self, a, k, n):
        return OpqV(("ext", "numpy.printoptions"))

    def n_set_printoptions(self, a, k, n):
        return None

    def n_argmax(self, a, k, n, name="argmax"):
        I = self.I
        if len(a) == 1 and not k:
            xs = I.nd(self.asarray(a[0])).reshape(-1)
            cs = [I.tonum(x) for x in xs]
            cs = [x.const() if isinstance(x, RF) else None for x in cs]
            if cs and all(c is not None for c in cs):
                best = (max if name == "argmax" else min)(range(len(cs)), key=lambda i: (cs[i], -i if name == "argmax" else i))
                return num(best)
        raise Undecided(name)

    def n_argmin(self, a, k, n): return self.n_argmax(a, k, n, "argmin")

    def n_take(self, a, k, n):
        if len(a) == 2 and not k:
            x = self.asarray(a[0])
            return self.I.getitem(ArrV(x.base, x.idx.reshape(-1)), a[1], n)
        raise Undecided("take")

    def n_searchsorted(self, a, k, n): raise Undecided("searchsorted")
    n_sort = n_unique = n_searchsorted

    # ------------------------------------------------------------------ randomness
    def random_call(self, leaf, args, kw, node):
        I = self.I
        if leaf in ("default_rng", "RandomState", "Generator", "PCG64", "SeedSequence"):
            seed = args[0] if args else kw.get("seed")
            if seed is None:
                self.rand += 1
                I.rand_events.append(("random", "numpy.random." + leaf, I.curfunc()))
                seed = nf.fn("rand", num(self.rand))
            return I.new("ext", {"@seed": I.encode(seed), "@k": 0}, "rng")
        if leaf == "seed":
            I.rand_events.append(("random", "numpy.random.seed", I.curfunc()))
            I.events.append(__import__("vf.interp", fromlist=["Event"]).Event("global", "numpy.random", "seed", I.loc(node), I.curfunc()))
            return None
        I.rand_events.append(("random", "numpy.random." + leaf, I.curfunc()))
        size = kw.get("size")
        if size is None:
            if leaf in ("normal", "uniform") and len(args) > 2:
                size = args[2]
            elif leaf in ("standard_normal", "random", "rand", "randn", "random_sample") and args:
                size = args[0] if len(args) == 1 else tuple(args)
        self.rand += 1
        return self.draws(("rand", leaf, num(self.rand)) + tuple(I.encode(a) for a in args[:2] if not isinstance(a, (tuple, Ref))), size)

    def draws(self, key, size):
        if size is None:
            return nf.fn("rand", key)
        sh = self.ints(size)
        cnt = int(np.prod(sh)) if sh else 1
        return self.I.arr_from([nf.fn("rand", key, num(i)) for i in range(cnt)], sh)

    def stats_call(self, path, leaf, args, kw, node):
        I = self.I
        if ".norm." in path or path.endswith("norm"):
            if leaf in ("pdf", "cdf", "ppf", "sf", "logpdf"):
                x = args[0] if args else kw.get("x", kw.get("q"))
                loc = args[1] if len(args) > 1 else kw.get("loc", num(0))
                sc = args[2] if len(args) > 2 else kw.get("scale", num(1))
                z = x
                if leaf != "ppf":
                    z = I.binop("Div", I.binop("Sub", x, loc), sc) if (loc, sc) != (num(0), num(1)) else x
                if leaf == "pdf":
                    return I.binop("Div", self.el1(nf.NDF, z), sc)
                if leaf == "logpdf":
                    return I.binop("Sub", self.el1(lambda u: self.log(nf.NDF(u)), z), self.el1(self.log, sc))
                if leaf == "cdf":
                    return self.el1(lambda u: nf.fn("Phi", u), z)
                if leaf == "sf":
                    return self.el1(lambda u: nf.sub(num(1), nf.fn("Phi", u)), z)
                r = self.el1(lambda u: self.ppf_hook(u) if self.ppf_hook is not None else nf.fn("ppf", u), z)
                if isinstance(sc, RF) and sc.const() == 1 and isinstance(loc, RF) and loc.const() == 0:
                    return r
                return I.binop("Add", I.binop("Mult", r, sc), loc)
            if leaf == "rvs":
                return self.random_call("normal", [num(0), num(1)], {"size": kw.get("size", args[2] if len(args) > 2 else None)}, node)
        if leaf in ("Sobol", "Halton", "LatinHypercube"):
            d = args[0] if args else kw.get("d")
            scr = args[1] if len(args) > 1 else kw.get("scramble", True)
            seed = kw.get("seed", kw.get("rng"))
            r = I.new("ext", {"@d": d, "@scr": scr, "@pos": num(0)}, "sobol:" + leaf)
            if scr is not False and seed is None:
                self.rand += 1
                I.rand_events.append(("random", path, I.curfunc()))
                I.rec(r).data["@seed"] = num(self.rand)
            else:
                I.rec(r).data["@seed"] = I.encode(seed)
            return r
        return NotImplemented

    def qmc_method(self, o, name, args, kw, node):
        I = self.I
        r = I.rec(o)
        d = I.pyint(r.data["@d"])
        if name in ("random", "random_base2"):
            n = args[0] if args else kw.get("n", kw.get("m", num(1)))
            n = I.pyint(n)
            if name == "random_base2":
                n = 2 ** n
            pos = r.data["@pos"]
            p0 = I.pyint(pos)
            if self.sobol_hook is not None:
                out = [self.sobol_hook(r.data, p0 + i, j) for i in range(n) for j in range(d)]
            else:
                out = [nf.fn("sobolpt", str(r.meta), r.data["@d"], I.encode(r.data["@scr"]), r.data["@seed"], num(p0 + i), num(j)) for i in range(n) for j in range(d)]
            I.mut(o, "attr", "@pos", node).data["@pos"] = num(p0 + n)
            return I.arr_from(out, (n, d))
        if name == "fast_forward":
            n = args[0] if args else kw.get("n")
            m = I.mut(o, "attr", "@pos", node)
            m.data["@pos"] = num(I.pyint(m.data["@pos"]) + I.pyint(n))
            return o
        if name == "reset":
            I.mut(o, "attr", "@pos", node).data["@pos"] = num(0)
            return o
        raise Undecided("method %s of a Sobol engine" % name)

    # ------------------------------------------------------------------ calculus / solvers
    def fresh(self, pos=False):
        d = self.I.xi_depth
        return nf.sym("%s%d" % ("xip" if pos else "xi", d), pos=pos)

    def under(self, f):
        self.I.xi_depth += 1
        try:
            return f()
        finally:
            self.I.xi_depth -= 1

    def body(self, v, what):
        """numeric body of a derivative/root/integral."""
        v = self.scalar(v)
        for z in val.leaves(v):
            if not isinstance(z, (RF, bool)):
                if isinstance(z, ArrV) and z.idx.size == 1:
                    continue
                if isinstance(z, OpqV):
                    continue
                raise AbsRaise("TypeError", "%s of a non-number (%r)" % (what, z))
        return apply(lambda z: self.num(self.scalar(z)), v)

    def encb(self, b):
        """encoding of a body; equal gated bodies get one encoding."""
        if not isinstance(b, Gam):
            return self.I.encode(b)
        for o, e in self.bodies:
            try:
                if val.equal(b, o)[0]:
                    return e
            except (nf.NFError, ZeroDivisionError):
                pass
        e = self.I.encode(b)
        self.bodies.append((b, e))
        return e

    def subst_val(self, v, env):
        return val.subst_val(v, env)

    def deriv_call(self, D, args, kw, node):
        I = self.I
        x = args[0]
        opts = {k: v for k, v in D.opts.items()}
        order = opts.pop("n", num(1))
        if isinstance(order, RF) and order.const() is not None:
            pass
        o = tuple((k, I.encode(v)) for k, v in sorted(opts.items()) if v is not None)
        if isinstance(x, Ref) and I.rec(x).kind == "list" or isinstance(x, tuple):
            x = self.asarray(x)
        if x is None or isinstance(x, (str, StrV)):
            raise AbsRaise("TypeError", "derivative at a non-number", node, I.loc(node))
        if isinstance(x, Gam):
            return I.dist(lambda z: self.deriv_call(D, [z], kw, node), x)
        if isinstance(x, ArrV):
            xs = list(I.nd(x).reshape(-1))
            pos = [isinstance(z, RF) and nf.sign_of(z) == 1 for z in xs]
            allpos = all(pos)
            d = I.xi_depth
            names = [nf.sym("%s%d.%d" % ("xip" if allpos else "xi", d, i), pos=allpos) for i in range(len(xs))]
            com = nf.sym("%s%d" % ("xip" if allpos else "xi", d), pos=allpos)
            out = self.under(lambda: I.call(D.func, [I.arr_from(names, x.shape)], {}, node))
            if isinstance(out, ArrV):
                if out.shape != x.shape:
                    raise Undecided("derivative changes the array shape")
                ys = list(I.nd(out).reshape(-1))
            else:
                ys = [out] * len(xs)
            res = []
            for i, (y, xi) in enumerate(zip(ys, xs)):
                b = self.body(y, "derivative")
                b = val.subst_val(b, {nf_name(names[i]): com})
                res.append(nf.fn("D", order, self.encb(b), I.encode(xi), o))
            return I.arr_from(res, x.shape)
        pos = isinstance(x, RF) and nf.sign_of(x) == 1
        xi = self.fresh(pos)
        out = self.under(lambda: I.call(D.func, [xi], {}, node))
        if isinstance(out, ArrV) and out.idx.size > 1:
            ys = list(I.nd(out).reshape(-1))
            return I.arr_from([nf.fn("D", order, self.encb(self.body(y, "derivative")), I.encode(x), o) for y in ys], out.shape)
        b = self.body(out, "derivative")
        return nf.fn("D", order, self.encb(b), I.encode(x), o)

    def optimize_call(self, leaf, args, kw, node):
        I = self.I
        if leaf in ("root_scalar", "brentq", "brenth", "bisect", "ridder", "toms748", "newton"):
            f = args[0] if args else kw.get("f", kw.get("func"))
            kw = dict(kw)
            extra = kw.pop("args", None)
            pos = list(args[1:])
            if leaf == "root_scalar":
                if pos:
                    extra = pos.pop(0)
                for nme, v in zip(("method", "bracket", "fprime", "fprime2", "x0", "x1", "xtol", "rtol", "maxiter"), pos):
                    kw[nme] = v
            elif leaf == "newton":
                kw["x0"] = pos[0]
            else:
                kw["bracket"] = (pos[0] if pos else kw.pop("a"), pos[1] if len(pos) > 1 else kw.pop("b"))
            kw.pop("f", None)
            kw.pop("func", None)
            extra = () if extra is None else tuple(I.iterate(extra)) if self.isarr(extra) or isinstance(extra, Ref) else (extra,)
            xi = self.fresh()
            out = self.under(lambda: I.call(f, [xi] + list(extra), {}, node))
            I.solver_calls += 1
            if I.solver_fault:
                raise AbsRaise("RuntimeError" if leaf == "newton" else "ValueError", "the solver gives up", node, I.loc(node))
            b = self.body(out, "root")
            full = kw.pop("full_output", False)
            opts = tuple((k, I.encode(v)) for k, v in sorted(kw.items()) if v is not None)
            r = nf.fn("root", self.encb(b), opts)
            if leaf == "root_scalar":
                return I.new("ext", {"root": r, "converged": True, "iterations": OpqV(("iters",)), "flag": OpqV(("flag",)),
                                     "function_calls": OpqV(("fcalls",))}, "RootResults")
            return r
        if leaf in ("root", "fsolve", "minimize", "least_squares"):
            f = args[0] if args else kw.get("fun")
            kw = dict(kw)
            kw.pop("fun", None)
            x0 = args[1] if len(args) > 1 else kw.pop("x0")
            extra = args[2] if len(args) > 2 else kw.pop("args", ())
            extra = tuple(I.iterate(extra)) if self.isarr(extra) or isinstance(extra, Ref) else (extra,)
            x0a = self.n_atleast_1d([x0], {}, node)
            n = x0a.idx.size
            if leaf == "minimize" and self.minimize_hook is not None:
                return self.minimize_hook(f, x0a, extra, kw)
            d = I.xi_depth
            # optional bijective change of the unknowns (same on both sides of every comparison)
            remap = self.min_map if leaf == "minimize" and self.min_map is not None else (lambda i, mk: mk(False))
            xs = [remap(i, lambda pos, i=i: nf.sym("xi%s%d.%d" % ("p" if pos else "", d, i), pos=pos)) for i in range(n)]
            out = self.under(lambda: I.call(f, [I.arr_from(xs, (n,))] + list(extra), {}, node))
            if leaf in ("minimize",):
                b = self.encb(self.body(out, "objective"))
                tag = "argmin"
            else:
                ys = list(I.nd(out).reshape(-1)) if isinstance(out, ArrV) else [out]
                if len(ys) != n:
                    raise AbsRaise("TypeError", "solver: residual and unknown differ in shape", node, I.loc(node))
                b = tuple(self.encb(self.body(y, "root")) for y in ys)
                tag = "rootv"
            opts = tuple((k, I.encode(v)) for k, v in sorted(kw.items()) if v is not None)
            enc0 = I.encode(x0a)
            x = I.arr_from([remap(i, lambda pos, i=i: nf.fn(tag, b, enc0, num(i), opts, pos=pos)) for i in range(n)], (n,))
            if leaf == "fsolve":
                return x
            return I.new("ext", {"x": x, "fun": nf.fn("minval", b, enc0, opts) if leaf == "minimize" else OpqV(("fun",)),
                                 "success": True, "message": OpqV(("message",)), "status": num(0), "nit": OpqV(("nit",)),
                                 "nfev": OpqV(("nfev",))}, "OptimizeResult")
        return NotImplemented

    def quad(self, args, kw, node):
        I = self.I
        f, lo, hi = (list(args) + [None] * 3)[:3]
        f = f if f is not None else kw.get("func")
        lo = lo if lo is not None else kw.get("a")
        hi = hi if hi is not None else kw.get("b")
        extra = args[3] if len(args) > 3 else kw.get("args", ())
        extra = tuple(I.iterate(extra)) if self.isarr(extra) or isinstance(extra, Ref) else (extra,)
        pos = isinstance(lo, RF) and nf.sign_of(lo) in (0, 1, 2)
        xi = self.fresh(pos)
        out = self.under(lambda: I.call(f, [xi] + list(extra), {}, node))
        b = self.body(out, "integral")
        return (nf.fn("int", self.encb(b), I.encode(lo), I.encode(hi)), OpqV(("quaderr",)))

    # ------------------------------------------------------------------ copy
    def deepcopy(self, v, memo):
        I = self.I
        if isinstance(v, Gam):
            return apply(lambda z: self.deepcopy(z, memo), v)
        if isinstance(v, tuple):
            return tuple(self.deepcopy(z, memo) for z in v)
        if isinstance(v, BoundV):
            return BoundV(v.func, self.deepcopy(v.self_, memo))
        if isinstance(v, PartialV):
            return PartialV(self.deepcopy(v.func, memo), [self.deepcopy(z, memo) for z in v.args],
                            {k: self.deepcopy(z, memo) for k, z in v.kwargs.items()})
        if isinstance(v, MethV) and isinstance(v.obj, (Ref, ArrV)):
            return MethV(self.deepcopy(v.obj, memo), v.name)
        if isinstance(v, DerivV):
            return DerivV(self.deepcopy(v.func, memo), {k: self.deepcopy(z, memo) for k, z in v.opts.items()})
        if isinstance(v, ArrV):
            k = ("arr", v.base, v.idx.tobytes(), v.shape)
            if k in memo:
                return memo[k]
            r = self.from_nd(I.nd(v))
            memo[k] = r
            return r
        if isinstance(v, Ref):
            if v.id in memo:
                return memo[v.id]
            rec = I.rec(v)
            if rec.kind == "obj":
                f, own = I.class_attr(rec.meta, "__deepcopy__")
                if own is not None:
                    r = I.call(BoundV(f, v), [I.mkdict([])], {})
                    memo[v.id] = r
                    return r
                for nm in ("__reduce__", "__reduce_ex__", "__getstate__", "__setstate__"):
                    if I.class_attr(rec.meta, nm)[1] is not None:
                        raise Undecided("deepcopy with %s" % nm)
                r = I.new("obj", {}, rec.meta)
                memo[v.id] = r
                for k, z in rec.data.items():
                    c = self.deepcopy(z, memo)
                    I.mut(r, event=False).data[k] = c
                return r
            if rec.kind in ("list", "iter"):
                r = I.new(rec.kind, [], rec.meta)
                memo[v.id] = r
                for z in rec.data:
                    c = self.deepcopy(z, memo)
                    I.mut(r, event=False).data.append(c)
                return r
            if rec.kind in ("dict", "set"):
                r = I.new(rec.kind, {}, rec.meta)
                memo[v.id] = r
                for k, (a, b) in rec.data.items():
                    c = (self.deepcopy(a, memo), self.deepcopy(b, memo))
                    I.mut(r, event=False).data[k] = c
                return r
            if rec.kind == "ext":
                r = I.new("ext", {}, rec.meta)
                memo[v.id] = r
                for k, z in rec.data.items():
                    c = self.deepcopy(z, memo) if isinstance(z, (Ref, ArrV, tuple, Gam)) else z
                    I.mut(r, event=False).data[k] = c
                return r
            raise Undecided("deepcopy of %s" % rec.kind)
        return v

    def shallow(self, v):
        I = self.I
        if isinstance(v, ArrV):
            return self.from_nd(I.nd(v))
        if isinstance(v, Ref):
            rec = I.rec(v)
            if rec.kind == "obj":
                f, own = I.class_attr(rec.meta, "__copy__")
                if own is not None:
                    return I.call(BoundV(f, v), [], {})
            if rec.kind == "poison":
                raise Undecided("copy")
            return I.new(rec.kind, dict(rec.data) if isinstance(rec.data, dict) else list(rec.data), rec.meta)
        return v

    def dataclass_call(self, leaf, args, kw, node):
        I = self.I
        o = args[0]
        rec = I.rec(o)
        if leaf == "asdict":
            return I.mkdict([(k, rec.data[k]) for k in rec.data if k in rec.meta.fields])
        if leaf == "astuple":
            return tuple(v for k, v in rec.data.items() if k in rec.meta.fields)
        d = {k: v for k, v in rec.data.items() if k in rec.meta.fields}
        d.update(kw)
        return I.instantiate(rec.meta, [], d, node)

    # ------------------------------------------------------------------ operator / itertools
    def operator_call(self, leaf, args, kw, node):
        I = self.I
        ops = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow", "mod": "Mod", "floordiv": "FloorDiv",
               "and_": "BitAnd", "or_": "BitOr", "matmul": "MatMult"}
        if leaf in ops:
            return I.binop(ops[leaf], args[0], args[1], node)
        cmps = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq", "is_": "Is", "is_not": "IsNot"}
        if leaf in cmps:
            return I.compare(cmps[leaf], args[0], args[1], node)
        if leaf == "neg":
            return I.unop("USub", args[0])
        if leaf == "not_":
            return val.b_not(I.truth(args[0]))
        if leaf == "getitem":
            return I.getitem(args[0], args[1], node)
        if leaf == "attrgetter":
            names = list(args)

            def get(I2, a, k, n):
                r = []
                for nm in names:
                    v = a[0]
                    for p in nm.split("."):
                        v = I2.getattr(v, p, n)
                    r.append(v)
                return r[0] if len(r) == 1 else tuple(r)
            return PyFn("attrgetter", get)
        if leaf == "itemgetter":
            ks = list(args)

            def item(I2, a, k, n):
                r = [I2.getitem(a[0], kk, n) for kk in ks]
                return r[0] if len(r) == 1 else tuple(r)
            return PyFn("itemgetter", item)
        if leaf == "methodcaller":
            nm, rest, kk = args[0], list(args[1:]), dict(kw)
            return PyFn("methodcaller", lambda I2, a, k, n: I2.call(I2.getattr(a[0], nm, n), rest, kk, n))
        return NotImplemented

    def itertools_call(self, leaf, args, kw, node):
        import itertools
        I = self.I
        if leaf == "product":
            its = [I.iterate(a) for a in args]
            rep = I.pyint(kw.get("repeat", num(1)))
            return I.mklist([tuple(t) for t in itertools.product(*its, repeat=rep)])
        if leaf == "chain":
            return I.mklist([x for a in args for x in I.iterate(a)])
        if leaf in ("from_iterable",):
            return I.mklist([x for a in I.iterate(args[0]) for x in I.iterate(a)])
        if leaf == "combinations":
            return I.mklist([tuple(t) for t in itertools.combinations(I.iterate(args[0]), I.pyint(args[1]))])
        if leaf == "permutations":
            return I.mklist([tuple(t) for t in itertools.permutations(I.iterate(args[0]))])
        if leaf == "repeat" and len(args) == 2:
            return I.mklist([args[0]] * I.pyint(args[1]))
        if leaf == "accumulate":
            out = []
            acc = None
            for x in I.iterate(args[0]):
                acc = x if acc is None else (I.call(args[1], [acc, x], {}, node) if len(args) > 1 else I.binop("Add", acc, x))
                out.append(acc)
            return I.mklist(out)
        if leaf == "starmap":
            return I.mklist([I.call(args[0], I.iterate(t), {}, node) for t in I.iterate(args[1])])
        if leaf == "islice":
            sl = [None if a is None else I.pyint(a) for a in args[1:]]
            stop = sl[0] if len(sl) == 1 else sl[1]
            items = I.iterate(args[0]) if stop is None else self.take(args[0], stop)
            return I.new("iter", list(itertools.islice(items, *sl)))
        if leaf == "zip_longest":
            its = [I.iterate(a) for a in args]
            return I.mklist([tuple(t) for t in itertools.zip_longest(*its, fillvalue=kw.get("fillvalue"))])
        if leaf == "count":
            a = args[0] if args else kw.get("start", num(0))
            st = args[1] if len(args) > 1 else kw.get("step", num(1))
            return I.new("count", [a, st])
        if leaf == "pairwise":
            items = I.iterate(args[0])
            return I.mklist([tuple(t) for t in zip(items, items[1:])])
        if leaf in ("takewhile", "dropwhile"):
            out = []
            taking = True
            for x in I.iterate(args[1]):
                if taking:
                    c = I.decide(I.truth(I.call(args[0], [x], {}, node)))
                    if not isinstance(c, bool):
                        raise Undecided(leaf)
                    taking = c
                if taking == (leaf == "takewhile"):
                    out.append(x)
            return I.mklist(out)
        if leaf == "compress":
            out = []
            for x, c in zip(I.iterate(args[0]), I.iterate(args[1])):
                c = I.decide(I.truth(c))
                if not isinstance(c, bool):
                    raise Undecided("compress")
                if c:
                    out.append(x)
            return I.mklist(out)
        if leaf in ("repeat", "cycle", "tee", "groupby"):
            raise Undecided("itertools." + leaf)
        return NotImplemented

    # ------------------------------------------------------------------ arrays
    def length(self, n):
        """the length of an array; a size chosen by the analysis when the check says so."""
        return size_const(n) if self.taint_len and n > 0 else num(n)

    def arr_attr(self, v, name, node):
        I = self.I
        if name == "shape":
            return tuple(self.length(i) for i in v.shape)
        if name == "size":
            return self.length(int(v.idx.size))
        if name == "ndim":
            return num(v.idx.ndim)
        if name == "T":
            return ArrV(v.base, v.idx.T)
        if name == "real":
            return self.el1(nf.real, v)
        if name == "imag":
            return self.el1(nf.imag, v)
        if name == "flat":
            return ArrV(v.base, v.idx.reshape(-1))
        if name == "dtype":
            return OpqV(("dtype",))
        if name == "base":
            return OpqV(("arrbase",))
        return MethV(v, name)

    def method(self, o, name, args, kw, node):
        I = self.I
        if isinstance(o, Gam):
            return I.dist(lambda z: self.method(z, name, args, kw, node), o)
        if isinstance(o, ArrV):
            return self.arr_method(o, name, args, kw, node)
        if isinstance(o, Ref):
            r = I.rec(o)
            if r.kind == "list":
                return self.list_method(o, name, args, kw, node)
            if r.kind == "dict":
                return self.dict_method(o, name, args, kw, node)
            if r.kind == "set":
                return self.set_method(o, name, args, kw, node)
            if r.kind == "ext":
                if str(r.meta).startswith("sobol:"):
                    return self.qmc_method(o, name, args, kw, node)
                if r.meta == "rng":
                    m = I.mut(o, "attr", "@k", node)
                    m.data["@k"] += 1
                    size = kw.get("size")
                    if size is None and args:
                        size = args[2] if name in ("normal", "uniform") and len(args) > 2 else (args[0] if name not in ("normal", "uniform") else None)
                    return self.draws(("rng", name, r.data["@seed"], num(m.data["@k"])), size)
                if name in ("keys", "values", "items"):
                    d = {k: z for k, z in r.data.items() if not k.startswith("@")}
                    return I.mklist(list(d) if name == "keys" else list(d.values()) if name == "values" else list(d.items()))
                if name == "get":
                    return r.data.get(args[0], args[1] if len(args) > 1 else None)
            if r.kind == "poison":
                raise Undecided("container with different shapes on different paths")
            raise AbsRaise("AttributeError", "no method %s" % name, node, I.loc(node))
        if isinstance(o, (str, StrV)):
            return self.str_method(o, name, args, kw, node)
        if isinstance(o, tuple):
            if name == "index":
                for i, x in enumerate(o):
                    if I.equals(x, args[0]) is True:
                        return num(i)
                raise AbsRaise("ValueError", "not in tuple", node, I.loc(node))
            if name == "count":
                return num(sum(1 for x in o if I.equals(x, args[0]) is True))
        if isinstance(o, OpqDict):
            return self.method(o.todict(I), name, args, kw, node) if name not in ("update", "pop", "setdefault", "clear", "__setitem__") \
                else self.objdict_method(o, name, args, kw, node)
        if isinstance(o, (RF, bool)):
            if name in ("round",):
                return self.b_round([o] + list(args), kw, node)
            if name in ("item", "copy", "conjugate", "sum", "mean", "max", "min", "squeeze", "flatten", "tolist", "astype", "__float__"):
                return o
            if name == "is_integer":
                c = self.num(o).const()
                if c is not None:
                    return c.denominator == 1
                return val.opq_cond(("isint", o))
            if name in ("all", "any"):
                return I.truth(o)
            if name == "std" or name == "var":
                return num(0)
            if name.startswith("__") and name.strip("_") in ("add", "sub", "mul", "truediv", "pow"):
                return I.binop({"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow"}[name.strip("_")], o, args[0], node)
            raise AbsRaise("AttributeError", "float has no attribute %s" % name, node, I.loc(node))
        if isinstance(o, OpqV):
            if o.key == ("ext", "warnings.catch_warnings"):
                return None
            if o.key[0] == "ext" and o.key[1] in ("figure", "axes"):
                self.drawn.append((name, list(args), dict(kw), I.loc(node)))
                self.effects.append(("figure", I.loc(node), I.curfunc()))
                if name in ("add_subplot", "subplots", "gca", "add_axes", "twinx"):
                    return OpqV(("ext", "axes"))
            return OpqV(("method", o.key, name) + tuple(I.encode(a) for a in args) + tuple((k, I.encode(v)) for k, v in sorted(kw.items())))
        if isinstance(o, FuncV):
            if name == "cache_clear":
                return None
        raise Undecided("method %s of %r" % (name, o))

    def objdict_method(self, o, name, args, kw, node):
        I = self.I
        if name == "update":
            if args:
                m = args[0].todict(I) if isinstance(args[0], OpqDict) else args[0]
                for k, v in I.dict_items(m):
                    I.setattr_raw(o.o, k, v, node)
            for k, v in kw.items():
                I.setattr_raw(o.o, k, v, node)
            return None
        if name == "setdefault":
            d = I.rec(o.o).data
            if args[0] in d:
                return d[args[0]]
            I.setattr_raw(o.o, args[0], args[1] if len(args) > 1 else None, node)
            return args[1] if len(args) > 1 else None
        if name == "pop":
            m = I.mut(o.o, "delattr", args[0], node).data
            if args[0] in m:
                return m.pop(args[0])
            if len(args) > 1:
                return args[1]
            raise AbsRaise("KeyError", args[0], node, I.loc(node))
        if name == "clear":
            I.mut(o.o, "delattr", "*", node).data.clear()
            return None
        raise Undecided("__dict__.%s" % name)

    def arr_method(self, o, name, args, kw, node):
        I = self.I
        if name == "copy":
            return self.from_nd(I.nd(o))
        if name == "__copy__" or name == "__deepcopy__":
            return self.from_nd(I.nd(o))
        if name in ("sum", "mean", "prod", "var", "std", "max", "min", "all", "any", "cumsum", "cumprod", "round", "clip", "dot",
                    "repeat", "squeeze", "ravel", "transpose", "argmax", "argmin", "conj", "swapaxes"):
            kw = {k: v for k, v in kw.items() if k not in ("dtype",)}
            if name == "transpose" and args:
                raise Undecided("transpose with axes")
            if kw.get("out") is not None:
                raise Undecided("array method with out")
            f = getattr(self, "n_" + name, None)
            if f is None:
                return self.el1(self.unary()[name], o)
            return f([o] + list(args), kw, node)
        if name == "reshape":
            sh = args[0] if len(args) == 1 else tuple(args)
            return self.n_reshape([o, sh], {}, node)
        if name == "flatten":
            return self.from_nd(I.nd(o).reshape(-1))
        if name in ("astype",):
            return I.arr_from([I.unint(x) for x in I.nd(o).reshape(-1)], o.shape)
        if name == "view":
            return o
        if name == "tolist":
            def rec(n):
                if n.ndim == 0:
                    return n[()]
                if n.ndim == 1:
                    return I.mklist(list(n))
                return I.mklist([rec(z) for z in n])
            return rec(I.nd(o))
        if name == "item":
            n = I.nd(o).reshape(-1)
            if args:
                return n[I.pyint(args[0])]
            if len(n) != 1:
                raise AbsRaise("ValueError", "can only convert an array of size 1", node, I.loc(node))
            return n[0]
        if name == "fill":
            arr = np.empty(o.idx.shape, dtype=object)
            for ix in np.ndindex(arr.shape):
                arr[ix] = args[0]
            I.arr_store(o.base, o.idx, arr, node)
            return None
        if name in ("sort", "partition", "resize", "put", "itemset", "setflags", "byteswap"):
            if name in ("setflags",):
                I.events.append(__import__("vf.interp", fromlist=["Event"]).Event("array", o.base, name, I.loc(node), I.curfunc())) \
                    if o.base <= I.watermark else None
                return None
            I.mut(o.base, "array", name, node)
            raise Undecided("in-place array method %s" % name)
        if name == "__len__":
            return self.b_len([o], {}, node)
        if name == "nonzero":
            return self.n_where([o], {}, node)
        raise Undecided("array method %s" % name)

    def list_method(self, o, name, args, kw, node):
        I = self.I
        r = I.rec(o)
        if name == "append":
            I.mut(o, "append", None, node).data.append(args[0])
            return None
        if name == "extend":
            items = I.iterate(args[0])
            I.mut(o, "extend", None, node).data.extend(items)
            return None
        if name == "insert":
            I.mut(o, "insert", None, node).data.insert(I.pyint(args[0]), args[1])
            return None
        if name == "pop":
            d = I.mut(o, "pop", None, node).data
            try:
                return d.pop(I.pyint(args[0])) if args else d.pop()
            except IndexError:
                raise AbsRaise("IndexError", "pop", node, I.loc(node))
        if name == "copy":
            return I.mklist(r.data)
        if name == "reverse":
            I.mut(o, "reverse", None, node).data.reverse()
            return None
        if name == "clear":
            I.mut(o, "clear", None, node).data.clear()
            return None
        if name in ("index", "count"):
            return self.method(tuple(r.data), name, args, kw, node)
        if name == "remove":
            for i, x in enumerate(r.data):
                t = I.equals(x, args[0])
                if t is True:
                    del I.mut(o, "remove", None, node).data[i]
                    return None
                if t is not False:
                    raise Undecided("remove")
            raise AbsRaise("ValueError", "not in list", node, I.loc(node))
        if name == "sort":
            s = self.b_sorted([o], kw, node)
            I.mut(o, "sort", None, node).data[:] = I.rec(s).data
            return None
        if name in ("popleft", "appendleft"):
            d = I.mut(o, name, None, node).data
            return d.pop(0) if name == "popleft" else d.insert(0, args[0])
        raise AbsRaise("AttributeError", "list has no attribute %s" % name, node, I.loc(node))

    def dict_method(self, o, name, args, kw, node):
        I = self.I
        r = I.rec(o)
        if name in ("get", "__getitem__"):
            h = I.hkey(args[0])
            d = args[1] if len(args) > 1 else None
            if h in r.data:
                v = r.data[h][1]
                if v is UNBOUND:
                    return d
                if isinstance(v, Gam) and any(z is UNBOUND for z in val.leaves(v)):
                    return apply(lambda z: d if z is UNBOUND else z, v)
                return v
            if name == "__getitem__":
                raise AbsRaise("KeyError", repr(args[0]), node, I.loc(node))
            return d
        if name in ("keys", "values", "items"):
            for k, v in r.data.values():
                if v is UNBOUND or (isinstance(v, Gam) and any(z is UNBOUND for z in val.leaves(v))):
                    raise Undecided("iteration over a dict with conditional keys")
            if name == "keys":
                return I.mklist([k for k, _ in r.data.values()])
            if name == "values":
                return I.mklist([v for _, v in r.data.values()])
            return I.mklist([(k, v) for k, v in r.data.values()])
        if name == "copy":
            return I.new("dict", dict(r.data), r.meta)
        if name == "update":
            pairs = []
            if args:
                m = args[0].todict(I) if isinstance(args[0], OpqDict) else args[0]
                if isinstance(m, Ref) and I.rec(m).kind == "dict":
                    pairs = list(I.rec(m).data.values())
                else:
                    pairs = [tuple(I.iterate(x)) for x in I.iterate(m)]
            d = I.mut(o, "update", None, node).data
            for k, v in pairs + list(kw.items()):
                d[I.hkey(k)] = (k, v)
            return None
        if name == "pop":
            h = I.hkey(args[0])
            if h in r.data:
                v = r.data[h][1]
                del I.mut(o, "pop", args[0], node).data[h]
                return v
            if len(args) > 1:
                return args[1]
            raise AbsRaise("KeyError", repr(args[0]), node, I.loc(node))
        if name == "setdefault":
            h = I.hkey(args[0])
            if h not in r.data:
                I.mut(o, "setdefault", args[0], node).data[h] = (args[0], args[1] if len(args) > 1 else None)
            return I.rec(o).data[h][1]
        if name == "clear":
            I.mut(o, "clear", None, node).data.clear()
            return None
        if name == "popitem":
            d = I.mut(o, "popitem", None, node).data
            h = list(d)[-1]
            return d.pop(h)
        if name == "fromkeys":
            return I.mkdict([(k, args[1] if len(args) > 1 else None) for k in I.iterate(args[0])])
        if name == "__contains__":
            return I.contains(o, args[0])
        if name == "move_to_end":
            return None
        raise AbsRaise("AttributeError", "dict has no attribute %s" % name, node, I.loc(node))

    def set_method(self, o, name, args, kw, node):
        I = self.I
        r = I.rec(o)
        if name == "add":
            I.mut(o, "add", None, node).data[I.hkey(args[0])] = (args[0], True)
            return None
        if name in ("discard", "remove"):
            h = I.hkey(args[0])
            if h in r.data:
                del I.mut(o, name, None, node).data[h]
            elif name == "remove":
                raise AbsRaise("KeyError", "", node, I.loc(node))
            return None
        if name == "copy":
            return I.new("set", dict(r.data))
        other = {}
        for a in args:
            for x in I.iterate(a):
                other[I.hkey(x)] = (x, True)
        if name == "union":
            return I.new("set", {**r.data, **other})
        if name == "update":
            I.mut(o, name, None, node).data.update(other)
            return None
        if name == "difference":
            return I.new("set", {k: v for k, v in r.data.items() if k not in other})
        if name == "intersection":
            return I.new("set", {k: v for k, v in r.data.items() if k in other})
        if name == "issubset":
            return all(k in other for k in r.data)
        if name == "issuperset":
            return all(k in r.data for k in other)
        raise Undecided("set method %s" % name)

    def str_method(self, o, name, args, kw, node):
        I = self.I
        if name == "format":
            return self.str_format(o, args, kw)
        if name == "join":
            parts = []
            for i, x in enumerate(I.iterate(args[0])):
                if i:
                    parts.append(o)
                if isinstance(x, (str, StrV, Gam)):
                    parts.append(x)
                else:
                    raise AbsRaise("TypeError", "join expects strings", node, I.loc(node))
            return I.cat(parts)
        if isinstance(o, str) and all(isinstance(a, str) or (isinstance(a, RF) and a.const() is not None) or isinstance(a, tuple) for a in args):
            py = [a if isinstance(a, (str, tuple)) else int(a.const()) for a in args]
            f = getattr(o, name, None)
            if f is None:
                raise AbsRaise("AttributeError", "str has no attribute %s" % name, node, I.loc(node))
            r = f(*py)
            if isinstance(r, bool) or isinstance(r, str):
                return r
            if isinstance(r, int):
                return num(r)
            if isinstance(r, list):
                return I.mklist(r)
            if isinstance(r, tuple):
                return r
        if isinstance(o, StrV):
            if name in ("rstrip", "removesuffix") and isinstance(o.parts[-1], str) and all(isinstance(a, str) for a in args):
                t = getattr(o.parts[-1], name)(*args)
                return mkstr(list(o.parts[:-1]) + [t])
            if name in ("lstrip", "removeprefix") and isinstance(o.parts[0], str) and all(isinstance(a, str) for a in args):
                return mkstr([getattr(o.parts[0], name)(*args)] + list(o.parts[1:]))
            if name == "strip" and not args:
                p = list(o.parts)
                if isinstance(p[0], str):
                    p[0] = p[0].lstrip()
                if isinstance(p[-1], str):
                    p[-1] = p[-1].rstrip()
                return mkstr(p)
            if name == "startswith" and isinstance(o.parts[0], str) and isinstance(args[0], str) and len(o.parts[0]) >= len(args[0]):
                return o.parts[0].startswith(args[0])
            if name == "endswith" and isinstance(o.parts[-1], str) and isinstance(args[0], str) and len(o.parts[-1]) >= len(args[0]):
                return o.parts[-1].endswith(args[0])
        raise Undecided("string method %s" % name)

    def str_format(self, o, args, kw):
        import string
        I = self.I
        if not isinstance(o, str):
            raise Undecided("format of a symbolic string")
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            parts.append(lit)
            if field is None:
                continue
            name = field
            rest = ""
            for j, ch in enumerate(field):
                if ch in ".[":
                    name, rest = field[:j], field[j:]
                    break
            if name == "":
                v = args[auto]
                auto += 1
            elif name.isdigit():
                v = args[int(name)]
            else:
                if name not in kw:
                    raise AbsRaise("KeyError", name)
                v = kw[name]
            if rest:
                if rest.startswith("[") and rest.endswith("]"):
                    key = rest[1:-1]
                    v = I.getitem(v, num(int(key)) if key.isdigit() else key)
                else:
                    for a in rest.strip(".").split("."):
                        v = I.getattr(v, a)
            parts.append(I.fmt(v, spec or "", ord(conv) if conv else -1))
        return I.cat(parts)


def nf_name(x):
    (m, c), = x.num.items()
    return nf.ATOMS[m[0][0]].data
