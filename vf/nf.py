"""Canonical form of numeric values ("value numbers").

A numeric value is a rational function with exact rational coefficients over
interned atoms (symbols, exp/log/root/positive-part/CND/uninterpreted terms).
Two program expressions are given the same value number when their canonical
forms are equal; nothing is evaluated at sample points (the floating point
`fp` of a value is only a hash used to find candidates in the intern tables
and to fix the orientation of odd/even functions; every equality is exact).
"""
from fractions import Fraction as Fr
import random
import math
import cmath
import bisect

_rng = random.Random(20240607)


class NFError(Exception):
    """Value outside the algebra (treated as undecided by callers)."""


class Atom:
    __slots__ = ("id", "kind", "data", "pos", "fp", "name", "integer")

    def __init__(self, kind, data, pos, fp, name, integer=False):
        self.id = len(ATOMS)
        self.kind = kind
        self.data = data
        self.pos = pos
        self.fp = fp
        self.name = name
        self.integer = integer
        ATOMS.append(self)


ATOMS = []
_SYMS = {}
_PRIMES = {}
_BUCKET = {}


def reset():
    ATOMS.clear()
    _SYMS.clear()
    _PRIMES.clear()
    _BUCKET.clear()
    _POLYID.clear()
    _MAXSETS.clear()
    _MAXKEYS.clear()
    _EXPSIGN.clear()
    _MODV.clear()
    _MODP.clear()
    _rng.seed(20240607)
    _init_consts()


def _rand():
    return _rng.uniform(0.6, 1.9)


# ---------------------------------------------------------------- polynomials
# mono: tuple of (atom id, exponent) sorted by id ; poly: dict mono -> Fraction

ONE = ()


def qi(c):
    """exact rational: int when integral, Fraction otherwise."""
    if type(c) is int:
        return c
    if c.denominator == 1:
        return int(c)
    return c


def qdiv(a, b):
    if type(a) is int and type(b) is int:
        if a % b == 0:
            return a // b
        return Fr(a, b)
    return qi(Fr(a) / b)


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        ka, ea = a[i]
        kb, eb = b[j]
        if ka < kb:
            out.append(a[i])
            i += 1
        elif kb < ka:
            out.append(b[j])
            j += 1
        else:
            s = ea + eb
            if s:
                out.append((ka, s if type(s) is int else qi(s)))
            i += 1
            j += 1
    if i < la:
        out.extend(a[i:])
    elif j < lb:
        out.extend(b[j:])
    return tuple(out)


def mono_pow(a, e):
    if e == 0:
        return ONE
    if e == 1:
        return a
    return tuple((k, qi(x * e)) for k, x in a)


def _need_reduce(m):
    for k, e in m:
        kd = ATOMS[k].kind
        if kd == "R" or kd == "prime":
            if e < 0 or e >= 1:
                return True
        elif kd == "I":
            if e < 0 or e >= 2 or e != int(e):
                return True
    return False


class RF:
    """num / prod(den factors). den: tuple of (poly id, exponent>0)."""
    __slots__ = ("num", "den", "_fp", "_err")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den
        self._fp = None
        self._err = None

    # ---- fingerprints
    @property
    def fp(self):
        if self._fp is None:
            v, mag = _poly_fpm(self.num)
            rel = 0.0
            for pid, e in self.den:
                P = POLY(pid)
                d = P.fp ** e
                v = v / d
                mag = mag / abs(d)
                rel += e * P.mag / abs(P.fp)
            self._err = mag * (1 + rel) * 1e-10
            self._fp = v
        return self._fp

    @property
    def err(self):
        self.fp
        return self._err

    def is_zero(self):
        return not self.num

    def const(self):
        """Fraction if constant rational else None."""
        if self.den:
            return None
        if not self.num:
            return 0
        if len(self.num) == 1 and ONE in self.num:
            return self.num[ONE]
        return None

    def __repr__(self):
        return show(self)


class _P:
    __slots__ = ("poly", "fp", "mag", "id", "ints", "mods")


_POLYID = {}
_POLYS = []


def POLY(pid):
    return _POLYS[pid]


def _intern_poly(poly):
    key = frozenset(poly.items())
    i = _POLYID.get(key)
    if i is None:
        p = _P()
        p.poly = dict(poly)
        p.fp, p.mag = _poly_fpm(poly)
        p.mods = None
        p.id = len(_POLYS)
        _POLYS.append(p)
        _POLYID[key] = p.id
        i = p.id
    return i


def _poly_fpm(poly):
    v = 0j
    mag = 0.0
    for m, c in poly.items():
        t = complex(c)
        for k, e in m:
            t *= complex(ATOMS[k].fp) ** (e if type(e) is int else float(e))
        v += t
        mag += abs(t)
    return v, mag


def poly_add(a, b, cb=1):
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + (c if cb == 1 else c * cb)
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = s
    return r


MAXTERMS = 60000


def poly_mul(a, b):
    if len(a) * len(b) > MAXTERMS * 20:
        raise NFError("expression too large")
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            s = r.get(m, 0) + c1 * c2
            if s == 0:
                r.pop(m, None)
            else:
                r[m] = s
    if len(r) > MAXTERMS:
        raise NFError("expression too large")
    return r


def poly_pow(a, n):
    r = {ONE: 1}
    base = a
    while n:
        if n & 1:
            r = poly_mul(r, base)
        n >>= 1
        if n:
            base = poly_mul(base, base)
    return r


def _lead(poly):
    return max(poly)


def content(poly, only_pos):
    """poly = c * mono * prim ; c > 0 (or signed when only_pos False), prim leading coeff +-1.

    only_pos: extract only atoms known positive and a positive constant, prim
    keeps its sign.  Otherwise any atom, and the leading coefficient of prim is 1.
    """
    ms = list(poly)
    common = None
    for m in ms:
        d = dict(m)
        if common is None:
            common = d
        else:
            n = {}
            for k in set(common) | set(d):
                e = min(common.get(k, 0), d.get(k, 0))
                if e != 0:
                    n[k] = e
            common = n
    common = common or {}
    mono = tuple(sorted((k, e) for k, e in common.items() if (not only_pos or ATOMS[k].pos)
                        and ATOMS[k].kind not in ("I",)))
    inv = mono_pow(mono, -1)
    prim = {}
    for m, c in poly.items():
        prim[mono_mul(m, inv)] = c
    lc = prim[_lead(prim)]
    c = abs(lc) if only_pos else lc
    if c != 1:
        prim = {m: qdiv(x, c) for m, x in prim.items()}
    return c, mono, prim


def poly_divmod(n, d, limit=4000):
    """Multivariate division by a single divisor (lex on sorted monomials made non-negative)."""
    # shift n so that exponents are >= those possible: handled through exact divisibility of monomials
    order = sorted({k for m in n for k, _ in m} | {k for m in d for k, _ in m})

    def vec(m):
        dd = dict(m)
        return tuple(dd.get(k, 0) for k in order)

    nd = {vec(m): c for m, c in n.items()}
    dd = {vec(m): c for m, c in d.items()}
    if not nd:
        return {}, {}
    # make exponents non negative in both
    L = len(order)
    shn = [min([0] + [v[i] for v in nd]) for i in range(L)]
    shd = [min(v[i] for v in dd) for i in range(L)]
    nd = {tuple(v[i] - shn[i] for i in range(L)): c for v, c in nd.items()}
    dd = {tuple(v[i] - shd[i] for i in range(L)): c for v, c in dd.items()}
    ld = max(dd)
    lc = dd[ld]
    q = {}
    r = {}
    steps = 0
    while nd:
        steps += 1
        if steps > limit:
            return None
        lm = max(nd)
        c = nd[lm]
        diff = tuple(a - b for a, b in zip(lm, ld))
        if all(x >= 0 for x in diff):
            qc = qdiv(c, lc)
            q[diff] = q.get(diff, 0) + qc
            for v, x in dd.items():
                t = tuple(a + b for a, b in zip(v, diff))
                s = nd.get(t, 0) - x * qc
                if s == 0:
                    nd.pop(t, None)
                else:
                    nd[t] = s
        else:
            r[lm] = c
            del nd[lm]

    def back(v, sh):
        return tuple(sorted((k, v[i] + sh[i]) for i, k in enumerate(order) if v[i] + sh[i] != 0))

    sq = [shn[i] - shd[i] for i in range(L)]
    Q = {back(v, sq): c for v, c in q.items() if c != 0}
    R = {back(v, shn): c for v, c in r.items()}
    return Q, R


# ---------------------------------------------------------------- RF arithmetic

def rf_const(c):
    c = qi(Fr(c))
    return RF({ONE: c} if c else {})


def rf_atom(a, e=1):
    return _fix(RF({((a.id, qi(Fr(e))),): 1}))


def _fix(x):
    """Apply reductions for root/prime/imaginary atoms in the numerator."""
    bad = any(_need_reduce(m) for m in x.num)
    if not bad:
        return x
    out = RF({})
    groups = {}
    for m, c in x.num.items():
        rest = []
        coef = c
        mults = []
        for k, e in m:
            a = ATOMS[k]
            if a.kind == "prime" and (e < 0 or e >= 1):
                f = math.floor(e)
                coef = qi(coef * Fr(a.data) ** f)
                if e - f:
                    rest.append((k, qi(e - f)))
            elif a.kind == "I":
                if e != int(e):
                    rest.append((k, e))
                    continue
                r = int(e) % 4
                if r >= 2:
                    coef = -coef
                if r % 2:
                    rest.append((k, 1))
            elif a.kind == "R" and (e < 0 or e >= 1):
                f = math.floor(e)
                mults.append((a.data, f))
                if e - f:
                    rest.append((k, qi(e - f)))
            else:
                rest.append((k, e))
        key = tuple(sorted((id(d), f) for d, f in mults))
        g = groups.setdefault(key, [mults, {}])
        mm = tuple(sorted(rest))
        s = g[1].get(mm, 0) + coef
        if s == 0:
            g[1].pop(mm, None)
        else:
            g[1][mm] = s
    for mults, poly in groups.values():
        t = RF(poly)
        for d, f in mults:
            t = mul(t, powi(d, f))
        out = add(out, t)
    return RF(out.num, _merge_den(out.den, x.den)) if not x.den else div_den(out, x.den)


def div_den(x, den):
    return _cancel(RF(x.num, _merge_den(x.den, den)))


def _merge_den(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


# quick exact reject of non-divisible candidates: reduce both polynomials to one
# variable over GF(q) with fixed random values for the others; a divisor leaves no
# remainder there either.
_Q = (1 << 61) - 1
_MODV = {}
_MODP = {}


def _modval(k, e, L):
    r = _MODP.get((k, e, L))
    if r is not None:
        return r
    v = _MODV.get((k, L))
    if v is None:
        v = _MODV[(k, L)] = _mrng.randrange(2, _Q)
    r = _MODP[(k, e, L)] = pow(v, int(e * L), _Q)
    return r


_mrng = random.Random(77)


def _uni(poly, x, L):
    """poly as a Laurent polynomial in atom x over GF(q): dict exponent -> coefficient"""
    out = {}
    for m, c in poly.items():
        ex = 0
        t = c % _Q if type(c) is int else c.numerator % _Q * pow(c.denominator, -1, _Q) % _Q
        for k, e in m:
            if k == x:
                ex = e
            else:
                l = L.get(k, 1)
                t = t * _modval(k, e, l) % _Q
        ex = int(ex * L.get(x, 1))
        out[ex] = (out.get(ex, 0) + t) % _Q
    return {e: c for e, c in out.items() if c}


def _maybe_divides(num, pid):
    P = POLY(pid)
    p = P.poly
    # main variable: the one with the smallest spread in p
    spread = {}
    L = {}
    for poly in (p, num):
        for m in poly:
            for k, e in m:
                if type(e) is not int:
                    d = e.denominator
                    L[k] = L.get(k, 1) * d // math.gcd(L.get(k, 1), d)
    ids = sorted({k for m in p for k, _ in m})
    best = None
    for k in ids:
        es = [dict(m).get(k, 0) for m in p]
        w = (max(es) - min(es)) * L.get(k, 1)
        if w > 0 and (best is None or w < best[0]):
            best = (w, k)
    if best is None:
        return True
    x = best[1]
    d = _uni(p, x, L)
    n = _uni(num, x, L)
    if len(d) < 2 or not n:
        return True
    sh = min(d)
    d = {e - sh: c for e, c in d.items()}
    dd = max(d)
    il = pow(d[dd], -1, _Q)
    lo = min(n)
    hi = max(n)
    if hi - lo > 4000:
        return True
    arr = [n.get(i, 0) for i in range(lo, hi + 1)]
    items = [(dd - e, c * il % _Q) for e, c in d.items() if e != dd]
    for i in range(len(arr) - 1, dd - 1, -1):
        c = arr[i]
        if c:
            for off, q in items:
                arr[i - off] = (arr[i - off] - c * q) % _Q
            arr[i] = 0
    return not any(arr[:dd])


def _cancel(x):
    if not x.num:
        return RF({})
    if not x.den:
        return x
    num = x.num
    den = dict(x.den)
    for pid in list(den):
        p = POLY(pid).poly
        while den.get(pid, 0) > 0:
            if len(num) < 2 and len(p) > 1:
                break
            if len(num) > 3000:
                break
            if not _maybe_divides(num, pid):
                break
            res = poly_divmod(num, p)
            if res is None or res[1]:
                break
            num = res[0]
            den[pid] -= 1
        if den.get(pid) == 0:
            del den[pid]
    r = RF(num, tuple(sorted(den.items())))
    if any(_need_reduce(m) for m in num):
        return _fix(r)
    return r


def add(a, b, cb=1):
    if not b.num:
        return a
    if not a.num:
        return b if cb == 1 else scale(b, cb)
    if a.den == b.den:
        return _cancel(RF(poly_add(a.num, b.num, cb), a.den))
    da, db = dict(a.den), dict(b.den)
    L = {}
    for k in set(da) | set(db):
        L[k] = max(da.get(k, 0), db.get(k, 0))
    na, nb = a.num, b.num
    for k, e in L.items():
        ea = e - da.get(k, 0)
        if ea:
            na = poly_mul(na, poly_pow(POLY(k).poly, ea))
        eb = e - db.get(k, 0)
        if eb:
            nb = poly_mul(nb, poly_pow(POLY(k).poly, eb))
    r = RF(poly_add(na, nb, cb), tuple(sorted(L.items())))
    if any(_need_reduce(m) for m in r.num):
        r = _fix(r)
    return _cancel(r)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return RF({m: -c for m, c in a.num.items()}, a.den)


def scale(a, c):
    c = qi(Fr(c))
    if c == 0:
        return RF({})
    if c == 1:
        return a
    return RF({m: qi(x * c) for m, x in a.num.items()}, a.den)


def mul(a, b):
    if not a.num or not b.num:
        return RF({})
    r = RF(poly_mul(a.num, b.num), _merge_den(a.den, b.den))
    r = _fix(r)
    return _cancel(r) if r.den else r


def inv(a):
    if not a.num:
        raise ZeroDivisionError
    if len(a.num) == 1:
        (m, c), = a.num.items()
        n = RF({mono_pow(m, -1): qdiv(1, c)})
        n = _fix(n)
    else:
        c, m, prim = content(a.num, False)
        n = _fix(RF({mono_pow(m, -1): qdiv(1, c)}, ((_intern_poly(prim), 1),)))
    for pid, e in a.den:
        n = mul(n, RF(poly_pow(POLY(pid).poly, e)))
    return n


def div(a, b):
    c = b.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError
        return scale(a, Fr(1) / c)
    return mul(a, inv(b))


def powi(a, n):
    n = int(n)
    if n == 0:
        return rf_const(1)
    if n < 0:
        return powi(inv(a), -n)
    r = None
    base = a
    while n:
        if n & 1:
            r = base if r is None else mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


def eq(a, b):
    if a is b:
        return True
    fa, fb = a.fp, b.fp
    if abs(fa - fb) > a.err + b.err:
        return False
    if a.den == b.den and a.num == b.num:
        return True
    return sub(a, b).is_zero()


# ---------------------------------------------------------------- atoms

def sym(name, pos=True, integer=False):
    a = _SYMS.get(name)
    if a is None:
        a = Atom("sym", name, pos, _rand(), name, integer)
        _SYMS[name] = a
    return rf_atom(a)


def sym_atom(name):
    return _SYMS[name]


def _init_consts():
    global PI_A, I_A, INF_A, NAN_A, E1
    PI_A = Atom("sym", "pi", True, math.pi, "pi")
    _SYMS["pi"] = PI_A
    I_A = Atom("I", None, False, 1j, "I")
    INF_A = Atom("sym", "inf", True, 1e6 * _rand(), "inf")
    _SYMS["inf"] = INF_A
    NAN_A = Atom("sym", "nan", False, 1e5 * _rand(), "nan")
    _SYMS["nan"] = NAN_A


def PI():
    return rf_atom(PI_A)


def IM():
    return rf_atom(I_A)


def INF():
    return rf_atom(INF_A)


def NAN():
    return rf_atom(NAN_A)


def prime_atom(p):
    a = _PRIMES.get(p)
    if a is None:
        a = Atom("prime", p, True, float(p), str(p))
        _PRIMES[p] = a
    return a


def arg_eq(x, y):
    if isinstance(x, RF):
        return isinstance(y, RF) and eq(x, y)
    if isinstance(x, tuple):
        return isinstance(y, tuple) and len(x) == len(y) and all(arg_eq(a, b) for a, b in zip(x, y))
    if isinstance(y, (RF, tuple)):
        return False
    return type(x) is type(y) and x == y


def _arg_fp(x):
    if isinstance(x, RF):
        return x.fp
    if isinstance(x, tuple):
        return sum(((i + 1.37) * _arg_fp(y) for i, y in enumerate(x)), 0.77j)
    return 0.123


def intern(kind, extra, args, pos=False, name=None, integer=False):
    b = _BUCKET.setdefault((kind, extra), [])
    f = _arg_fp(args)
    for a, fa, ar in b:
        if abs(f - fa) <= 1e-6 * (1 + abs(f)) and arg_eq(ar, args):
            return a
    a = Atom(kind, (extra, args), pos, _rand(), name, integer)
    b.append((a, f, args))
    return a


def real_fp(x):
    f = x.fp
    return f.real if abs(f.real) > 1e-9 * abs(f) else f.imag


def has_atom(x, pred, seen=None):
    """any atom (recursively) satisfying pred"""
    for a in atoms_of(x):
        if pred(a):
            return True
    return False


def _args_rfs(args):
    if isinstance(args, RF):
        yield args
    elif isinstance(args, tuple):
        for x in args:
            yield from _args_rfs(x)


def direct_atoms(x):
    s = set()
    for m in x.num:
        for k, _ in m:
            s.add(k)
    for pid, _ in x.den:
        for m in POLY(pid).poly:
            for k, _ in m:
                s.add(k)
    return s


_SUB = {}


def atom_children(a):
    if a.kind in ("sym", "prime", "I"):
        return ()
    if a.kind in ("R",):
        return (a.data,)
    return tuple(_args_rfs(a.data[1]))


def atoms_of(x):
    """all atoms reachable (recursively)."""
    seen = set()
    stack = [x]
    out = []
    while stack:
        r = stack.pop()
        for k in direct_atoms(r):
            if k not in seen:
                seen.add(k)
                a = ATOMS[k]
                out.append(a)
                stack.extend(atom_children(a))
    return out


def syms_of(x):
    return {a.data for a in atoms_of(x) if a.kind == "sym"}


# ---------------------------------------------------------------- functions

def _factor_int(n):
    out = {}
    p = 2
    while p * p <= n and p < 5000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _const_factors(c):
    """positive Fraction -> dict prime->exp"""
    f = dict(_factor_int(c.numerator))
    for p, e in _factor_int(c.denominator).items():
        f[p] = f.get(p, 0) - e
    return f


def R_atom(prim):
    """root base atom for a multi-term primitive polynomial (as RF without den)."""
    r = RF(prim)
    b = _BUCKET.setdefault(("R", None), [])
    f = r.fp
    for a, fa in b:
        if abs(f - fa) <= 1e-6 * (1 + abs(f)) and eq(a.data, r):
            return a
    a = Atom("R", r, True, f, None)
    b.append((a, f))
    return a


def L_atom(prim):
    return intern("L", None, (RF(prim),), pos=False)


def _split_pos(m):
    p = tuple((k, e) for k, e in m if ATOMS[k].pos)
    q = tuple((k, e) for k, e in m if not ATOMS[k].pos)
    return p, q


def powq(x, q):
    """x ** q for a rational constant q (non-integer): roots distribute over positive factors."""
    q = Fr(q)
    if q.denominator == 1:
        return powi(x, q.numerator)
    if not x.num:
        if q > 0:
            return RF({})
        raise ZeroDivisionError
    num, den = _positive(x)
    if len(num) == 1:
        (m, c), = num.items()
        pm, qm = _split_pos(m)
        if c < 0 or qm:
            prim = {qm: 1 if c > 0 else -1}
            res = _const_pow(abs(c), q)
            res = mul(res, RF({mono_pow(pm, q): 1}))
            a = R_atom(prim)
            res = mul(res, rf_atom(a, q))
        else:
            res = mul(_const_pow(c, q), _fix(RF({mono_pow(pm, q): 1})))
    else:
        c, m, prim = content(num, True)
        res = mul(_const_pow(c, q), _fix(RF({mono_pow(m, q): 1})))
        res = mul(res, _pow_prim(prim, q))
    for p, e in den:
        res = mul(res, _pow_prim(p, -q * e))
    return res


def _pow_prim(prim, q):
    # perfect even power detection is left to the algebra: (P^2)^(1/2) is not simplified
    return rf_atom(R_atom(prim), q)


def _const_pow(c, q):
    """positive constant to a rational power"""
    r = rf_const(1)
    for p, e in _const_factors(Fr(c)).items():
        r = mul(r, rf_atom(prime_atom(p), e * q))
    return r


def sqrt(x):
    return powq(x, Fr(1, 2))


def log(x):
    if not x.num:
        raise NFError("log of zero")
    res = RF({})
    num, den = _positive(x)
    if len(num) == 1:
        (m, c), = num.items()
        if c < 0:
            return rf_atom(intern("fn", "log", (x,)))
        prim = None
    else:
        c, m, prim = content(num, True)
    for p, e in _const_factors(Fr(c)).items():
        res = add(res, scale(rf_atom(L_atom({((prime_atom(p).id, 1),): 1})), e))
    for k, e in m:
        a = ATOMS[k]
        if a.kind == "E":
            res = add(res, scale(a.data[1][0], e))
        elif a.kind == "R":
            res = add(res, scale(log(a.data), e))
        elif a.kind == "I":
            res = add(res, rf_atom(intern("fn", "log", (rf_atom(a),))))
        elif not a.pos and e == int(e) and e % 2 == 0:
            res = add(res, scale(rf_atom(L_atom({((k, 2),): 1})), Fr(e, 2)))
        else:
            res = add(res, scale(rf_atom(L_atom({((k, 1),): 1})), e))
    if prim is not None:
        res = add(res, rf_atom(L_atom(prim)))
    for p, e in den:
        res = sub(res, scale(rf_atom(L_atom(p)), e))
    return res


def _positive(x):
    """numerator and denominator factors of something positive.  An even power of a factor of unknown sign stands on its
    square, several odd ones stand on their product; numerator and denominator are oriented together, the same way
    for x and for 1/x."""
    num = x.num
    out, odd = [], None
    for pid, e in x.den:
        p = POLY(pid).poly
        if _poly_sign(p) in (1, -1) or any(ATOMS[k].kind == "I" for m in p for k, _ in m):
            out.append((p, e))
            continue
        if e >= 2:
            out.append((poly_mul(p, p), e // 2))
        if e % 2:
            odd = p if odd is None else poly_mul(odd, p)
    if odd is not None:
        t = _poly_sign(num)
        if t == -1:
            s = -1
        elif t == 1 or any(ATOMS[k].kind == "I" for m in num for k, _ in m):
            s = 1
        else:
            f, g = RF(content(num, True)[2]), RF(content(odd, True)[2])
            s = 1 if real_fp(f if abs(f.fp) < abs(g.fp) else g) > 0 else -1
        if s < 0:
            num = {m: -c for m, c in num.items()}
            odd = {m: -c for m, c in odd.items()}
        out.append((odd, 1))
    return num, out


def exp(x):
    if not x.num:
        return rf_const(1)
    res = rf_const(1)
    parts = []
    if not x.den:
        for m, c in x.num.items():
            parts.append((RF({m: 1}), c))
    else:
        num = x.num
        den = x.den
        if len(den) == 1 and den[0][1] == 1:
            r = poly_divmod(num, POLY(den[0][0]).poly)
            if r is not None and r[0]:
                q, rem = r
                for m, c in q.items():
                    parts.append((RF({m: 1}), c))
                num = rem
        for m, c in num.items():
            parts.append((_fix(RF({m: 1}, den)), c))
    for u, c in parts:
        # fold c*log(P) -> P**c
        if not u.den and len(u.num) == 1:
            (m, _), = u.num.items()
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "L":
                P = ATOMS[m[0][0]].data[1][0]
                res = mul(res, powq(P, c))
                continue
        if len(u.num) == 1:
            a = intern("E", None, (u,), pos=not any(z.kind == "I" for z in atoms_of(u)))
            res = mul(res, rf_atom(a, c))
        else:  # _fix changed it
            res = mul(res, exp(scale(u, c)))
    return res


def power(x, e):
    c = e.const()
    if c is not None:
        return powq(x, c)
    cx = x.const()
    if cx is not None and cx == 1:
        return rf_const(1)
    if cx is not None and cx == 0:
        return rf_const(0)
    if cx is not None and cx < 0:
        return rf_atom(intern("fn", "pow", (x, e)))
    return exp(mul(e, log(x)))


def sign_of(x):
    """+1, -1, 0 if the sign is fixed by the positivity assumptions else None (also +2: >=0, -2: <=0)."""
    if not x.num:
        return 0
    s = 1
    for pid, e in x.den:
        p = POLY(pid).poly
        t = _poly_sign(p)
        if t not in (1, -1):
            if e % 2 == 0:
                continue
            return None
        if t < 0 and e % 2:
            s = -s
    t = _poly_sign(x.num)
    if t is None:
        return None
    return t * s


def _poly_sign(p):
    # infinity dominates
    for m, c in p.items():
        if any(k == INF_A.id and e > 0 for k, e in m):
            if all(ATOMS[k].pos for k, _ in m):
                return 1 if c > 0 else -1
            return None
    pos = negs = strict_p = strict_n = False
    for m, c in p.items():
        strict = True
        sg = 1
        for k, e in m:
            a = ATOMS[k]
            if a.kind == "P":
                strict = False
            elif not a.pos:
                if e == int(e) and int(e) % 2 == 0:
                    strict = False
                else:
                    return None
        if c > 0:
            pos = True
            strict_p |= strict
        else:
            negs = True
            strict_n |= strict
    if pos and negs:
        return _exp_poly_sign(p)
    if pos:
        return 1 if strict_p else 2
    return -1 if strict_n else -2


def _exp_poly_sign(p):
    """sign of a polynomial in one exponential of a positive argument (so the atom is above 1), or None"""
    ids = {k for m in p for k, _ in m}
    if len(ids) != 1 or any(len(m) > 1 for m in p):
        return None
    k = ids.pop()
    a = ATOMS[k]
    if a.kind != "E" or len(p) > 12:
        return None
    s = _EXPSIGN.get(k)
    if s is None:
        args = [z for z in atom_children(a)]
        s = _EXPSIGN[k] = sign_of(args[0]) if len(args) == 1 else 0
        if s is None:
            s = _EXPSIGN[k] = 0
    if s not in (1, -1):
        return None
    es = {(m[0][1] if m else 0) * s: c for m, c in p.items()}
    lo = min(es)
    L = 1
    for e in es:
        L = math.lcm(L, Fr(e - lo).denominator)
    pol = {int((e - lo) * L): c for e, c in es.items()}
    n = max(pol)
    if n > 64:
        return None
    cs = [pol.get(i, 0) for i in range(n + 1)]
    for i in range(n):          # Taylor shift to 1 + y, y > 0
        for j in range(n - 1, i - 1, -1):
            cs[j] += cs[j + 1]
    if all(c >= 0 for c in cs):
        return 1
    if all(c <= 0 for c in cs):
        return -1
    return None


_EXPSIGN = {}


def orient(x):
    """(c*mono>0 content, prim RF with canonical sign, sign +1/-1): x = sgn*cont*prim"""
    c, m, prim = content(x.num, True)
    cont = RF({m: c})
    dpos = []
    dkeep = []
    for pid, e in x.den:
        if _poly_sign(POLY(pid).poly) == 1:
            dpos.append((pid, e))
        else:
            dkeep.append((pid, e))
    # remaining denominators: multiply into numerator to keep the sign (x*den^2 has same sign)
    if dkeep:
        P = RF(prim)
        for pid, e in dkeep:
            P = mul(P, RF(POLY(pid).poly)) if e % 2 else P
        # content gets 1/den^(e) * den^(-(e%2)) , an even power
        C = RF(cont.num, tuple(sorted(dpos + [(pid, e + e % 2) for pid, e in dkeep])))
        c2, m2, prim2 = content(P.num, True)
        P2 = RF(prim2, P.den)
        C = mul(C, RF({m2: c2}))
        prim_rf = P2
        cont_rf = C
    else:
        prim_rf = _fix(RF(prim))
        cont_rf = _fix(RF(cont.num, tuple(dpos)))
    s = 1
    if real_fp(prim_rf) < 0:
        prim_rf = neg(prim_rf)
        s = -1
    return cont_rf, prim_rf, s


def pospart(x):
    """max(x, 0)"""
    s = sign_of(x)
    if s is not None:
        return x if s > 0 else rf_const(0)
    cont, p, sg = orient(x)
    a = rf_atom(intern("P", None, (p,), pos=True))
    if sg > 0:
        return mul(cont, a)
    return mul(cont, sub(a, p))


_MAXKEYS = []   # real parts of the fingerprints, sorted
_MAXSETS = []   # (RF value, list of args), in the same order


def _maxargs(x):
    f = x.fp.real
    w = 16 * x.err + 1e-9 * abs(f)
    for i in range(bisect.bisect_left(_MAXKEYS, f - w), len(_MAXKEYS)):
        if _MAXKEYS[i] > f + w:
            break
        if eq(_MAXSETS[i][0], x):
            return _MAXSETS[i][1]
    return [x]


def maximum(a, b):
    args = []
    for z in _maxargs(a) + _maxargs(b):
        if not any(eq(z, y) for y in args):
            args.append(z)
    if len(args) == 1:
        return args[0]
    args.sort(key=real_fp)
    # drop dominated arguments
    keep = []
    for i, z in enumerate(args):
        dom = False
        for j, y in enumerate(args):
            if i != j:
                s = sign_of(sub(y, z))
                if s is not None and s > 0:
                    dom = True
                    break
        if not dom:
            keep.append(z)
    args = keep
    r = args[0]
    for y in args[1:]:
        r = add(y, pospart(sub(r, y)))
    if len(args) > 1:
        i = bisect.bisect_left(_MAXKEYS, r.fp.real)
        _MAXKEYS.insert(i, r.fp.real)
        _MAXSETS.insert(i, (r, args))
    return r


def minimum(a, b):
    return neg(maximum(neg(a), neg(b)))


def absolute(x):
    s = sign_of(x)
    if s is not None:
        return x if s > 0 else neg(x)
    return sub(scale(pospart(x), 2), x)


def sign(x):
    s = sign_of(x)
    if s in (0, 1, -1):
        return rf_const(s)
    cont, p, sg = orient(x)
    a = rf_atom(intern("sign", None, (p,)))
    return a if sg > 0 else neg(a)


def CND(x):
    c = x.const()
    if c is not None and c == 0:
        return rf_const(Fr(1, 2))
    if real_fp(x) < 0:
        a = intern("CND", None, (neg(x),), pos=True)
        return sub(rf_const(1), rf_atom(a))
    return rf_atom(intern("CND", None, (x,), pos=True))


def NDF(x):
    return div(exp(scale(mul(x, x), Fr(-1, 2))), sqrt(scale(PI(), 2)))


def CBND(a, b, rho):
    # symmetric in its two bounds
    if real_fp(a) > real_fp(b):
        a, b = b, a
    return rf_atom(intern("CBND", None, (a, b, rho), pos=True))


def fn(name, *args, pos=False, integer=False):
    return rf_atom(intern("fn", name, tuple(args), pos=pos, integer=integer))


def real(x):
    """real part; real monomial content is taken out."""
    if not any(a.kind == "I" or (a.kind == "fn" and a.data[0] == "complex") for a in atoms_of(x)):
        return x
    if not x.num:
        return x

    def cplx(a):
        return a.kind == "I" or any(z.kind == "I" for r in atom_children(a) for z in atoms_of(r))
    ms = list(x.num)
    common = None
    for m in ms:
        d = {k: e for k, e in m if not cplx(ATOMS[k])}
        if common is None:
            common = d
        else:
            common = {k: min(common.get(k, 0), d.get(k, 0)) for k in set(common) | set(d)}
    mono = tuple(sorted((k, e) for k, e in common.items() if e != 0))
    lc = x.num[_lead(x.num)]
    invm = mono_pow(mono, -1)
    prim = RF({mono_mul(m, invm): qdiv(c, lc) for m, c in x.num.items()}, x.den)
    return mul(RF({mono: lc}), rf_atom(intern("real", None, (prim,))))


def imag(x):
    return rf_atom(intern("fn", "imag", (x,)))


# ---------------------------------------------------------------- calculus / substitution

def diff(x, name, memo=None):
    """partial derivative with respect to a symbol."""
    if memo is None:
        memo = {}

    def datom(k):
        r = memo.get(k)
        if r is not None:
            return r
        a = ATOMS[k]
        if a.kind == "sym":
            r = rf_const(1 if a.data == name else 0)
        elif a.kind in ("prime", "I"):
            r = rf_const(0)
        elif a.kind == "R":
            r = diff(a.data, name, memo)
        else:
            args = a.data[1]
            dargs = [diff(z, name, memo) if isinstance(z, RF) else None for z in args]
            if all(d is None or d.is_zero() for d in dargs) and \
                    not any(isinstance(z, tuple) and any(not diff(q, name, memo).is_zero() for q in _args_rfs(z)) for z in args):
                r = rf_const(0)
            elif a.kind == "E":
                r = mul(rf_atom(a), dargs[0])
            elif a.kind == "L":
                r = div(dargs[0], args[0])
            elif a.kind == "CND":
                r = mul(NDF(args[0]), dargs[0])
            else:
                raise NFError("cannot differentiate %s" % a.kind)
        memo[k] = r
        return r

    def dpoly(p):
        out = RF({})
        for m, c in p.items():
            for k, e in m:
                d = datom(k)
                if d.is_zero():
                    continue
                rest = mono_mul(m, ((k, -1),))
                t = _fix(RF({rest: c * e}))
                out = add(out, mul(t, d))
        return out

    # quotient: num * prod q^-e
    out = dpoly(x.num)
    if x.den:
        out = div_den(out, x.den)
        for pid, e in x.den:
            p = POLY(pid).poly
            d = dpoly(p)
            if d.is_zero():
                continue
            t = mul(x, scale(d, -e))
            out = add(out, div(t, RF(p)))
    return out


def rebuild_atom(a, f):
    """rebuild an atom with its argument RFs mapped through f."""
    k = a.kind
    if k in ("sym", "prime", "I"):
        return rf_atom(a)
    if k == "R":
        raise NFError("R handled by caller")

    def g(z):
        if isinstance(z, RF):
            return f(z)
        if isinstance(z, tuple):
            return tuple(g(y) for y in z)
        return z
    extra, args = a.data
    n = g(args)
    if arg_eq(n, args):
        return rf_atom(a)
    if k == "E":
        return exp(n[0])
    if k == "L":
        return log(n[0])
    if k == "P":
        return pospart(n[0])
    if k == "CND":
        return CND(n[0])
    if k == "CBND":
        return CBND(*n)
    if k == "sign":
        return sign(n[0])
    if k == "real":
        return real(n[0])
    return rf_atom(intern(k, extra, n, pos=a.pos, integer=a.integer))


def subst(x, env, memo=None):
    """replace symbols by values: env name -> RF"""
    if memo is None:
        memo = {}

    def satom(k):
        r = memo.get(k)
        if r is None:
            a = ATOMS[k]
            if a.kind == "sym":
                r = env.get(a.data)
                if r is None:
                    r = rf_atom(a)
            elif a.kind == "R":
                r = f(a.data)
            else:
                r = rebuild_atom(a, f)
            memo[k] = r
        return r

    def spoly(p):
        out = RF({})
        for m, c in p.items():
            t = rf_const(c)
            for k, e in m:
                a = ATOMS[k]
                v = satom(k)
                t = mul(t, powq(v, e))
            out = add(out, t)
        return out

    def f(r):
        out = spoly(r.num)
        for pid, e in r.den:
            out = div(out, powi(spoly(POLY(pid).poly), e))
        return out

    if not any(a.kind == "sym" and a.data in env for a in atoms_of(x)):
        return x
    return f(x)


def replace_atoms(x, fn_, memo=None):
    """rebuild x with every atom a for which fn_(a) is an RF replaced by it (outermost first)."""
    if memo is None:
        memo = {}

    def satom(k):
        r = memo.get(k)
        if r is None:
            a = ATOMS[k]
            r = fn_(a)
            if r is None:
                if a.kind in ("sym", "prime", "I"):
                    r = rf_atom(a)
                elif a.kind == "R":
                    r = f(a.data)
                else:
                    r = rebuild_atom(a, f)
            memo[k] = r
        return r

    def spoly(p):
        out = RF({})
        for m, c in p.items():
            t = rf_const(c)
            for k, e in m:
                t = mul(t, powq(satom(k), e))
            out = add(out, t)
        return out

    def f(r):
        out = spoly(r.num)
        for pid, e in r.den:
            out = div(out, powi(spoly(POLY(pid).poly), e))
        return out
    if not any(fn_(a) is not None for a in atoms_of(x)):
        return x
    return f(x)


# ---------------------------------------------------------------- printing

def _show_exp(e):
    return str(e) if e == int(e) else "(%s)" % e


def show_atom(a):
    if a.kind in ("sym", "I"):
        return a.name
    if a.kind == "prime":
        return str(a.data)
    if a.kind == "R":
        return "(%s)" % show(a.data)
    extra, args = a.data
    nm = {"E": "exp", "L": "log", "P": "pos", "CND": "N", "CBND": "N2"}.get(a.kind, a.kind)
    if a.kind == "fn":
        nm = str(extra)

    def s(z):
        if isinstance(z, tuple):
            return "(" + ", ".join(s(y) for y in z) + ")"
        return show(z) if isinstance(z, RF) else repr(z)
    return nm + "(" + ", ".join(s(z) for z in args) + ")"


def _show_poly(p, limit=14):
    ts = []
    for i, (m, c) in enumerate(sorted(p.items(), key=lambda t: t[0])):
        if i >= limit:
            ts.append("...")
            break
        f = []
        for k, e in m:
            t = show_atom(ATOMS[k])
            f.append(t if e == 1 else t + "^" + _show_exp(e))
        body = "*".join(f)
        if not body:
            body = str(c)
        elif c == -1:
            body = "-" + body
        elif c != 1:
            body = "%s*%s" % (c, body)
        ts.append(body)
    return " + ".join(ts) if ts else "0"


def show(x, limit=14):
    s = _show_poly(x.num, limit)
    if x.den:
        d = "*".join("(%s)%s" % (_show_poly(POLY(p).poly, limit), "" if e == 1 else "^%d" % e) for p, e in x.den)
        return "(%s)/%s" % (s, d)
    return s


_init_consts()
