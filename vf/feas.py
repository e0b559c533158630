"""Precision filter for reported differences.

A difference between two value graphs is only reported when it survives here: conditions whose sign sets coincide
(up to the algebra's failure to see it) are identified, and leaves that are the same function written differently are
matched.  The terms of the value graphs are evaluated at points of the parameter space for that; nothing of the
analysed program is run.  A difference that disappears becomes "undecided", never "holds"."""
import random
import time
import mpmath
from . import nf, val
from .nf import RF

DIG = 40
N = 240
mp = mpmath.mp.clone() if hasattr(mpmath.mp, "clone") else mpmath.MPContext()
mp.dps = DIG


class Bad(Exception):
    pass


class OutOfTime(Exception):
    pass


def tick():
    if time.time() > BUDGET[0]:
        raise OutOfTime


class Point:
    def __init__(self, seed, env=None):
        self.rng = random.Random(seed)
        self.seed = seed
        self.env = env if env is not None else {}
        self.memo = {}
        self.signs = {}

    def symval(self, a):
        v = self.env.get(a.data)
        if v is None:
            r = random.Random("%s/%s" % (self.seed, a.data))
            if a.data == "pi":
                v = mp.pi
            elif a.data in ("inf", "nan"):
                v = mp.mpf(r.uniform(3, 4))
            elif a.integer:
                v = mp.mpf(r.randint(1, 6))
            elif a.pos:
                v = mp.exp(mp.mpf(r.uniform(-2.5, 1.2)))
            else:
                v = mp.mpf(r.uniform(-1.2, 1.2))
            self.env[a.data] = v
        return v

    def atom(self, k):
        v = self.memo.get(k)
        if v is None:
            tick()
            v = self.memo[k] = self._atom(nf.ATOMS[k])
        return v

    def _atom(self, a):
        if a.kind == "sym":
            return self.symval(a)
        if a.kind == "prime":
            return mp.mpf(a.data)
        if a.kind == "I":
            return mp.mpc(0, 1)
        if a.kind == "R":
            return self.num(a.data)
        args = a.data[1]
        if a.kind == "E":
            z = self.num(args[0])
            if abs(z) > 5000:
                raise Bad
            return mp.exp(z)
        if a.kind == "L":
            z = self.num(args[0])   # of a factor of something positive: the magnitude is what counts
            return mp.log(z if mp.mpc(z).imag else abs(z))
        if a.kind == "P":
            z = self.real(args[0])
            return z if z > 0 else mp.mpf(0)
        if a.kind == "sign":
            z = self.real(args[0])
            return mp.sign(z)
        if a.kind == "CND" or a.kind == "fn" and a.data[0] == "Phi":
            return mp.erfc(-self.num(args[0]) / mp.sqrt(2)) / 2
        if a.kind == "fn" and a.data[0] == "log":
            return mp.log(self.num(args[0]))
        if a.kind == "fn" and a.data[0] == "pow":
            return mp.power(self.num(args[0]), self.num(args[1]))
        if a.kind == "fn" and a.data[0] == "floor":
            return mp.floor(self.real(args[0]))
        if a.kind == "fn" and a.data[0] == "atan":
            return mp.atan(self.num(args[0]))
        # anything else: some function of its arguments
        r = random.Random("%s %s" % (self.seed if False else a.kind, (a.data[0], self.key(args))))
        v = mp.exp(mp.mpf(r.uniform(-1, 1))) if a.pos else mp.mpf(r.uniform(-1.5, 1.5))
        return mp.mpf(r.randint(0, 5)) if a.integer else v

    def key(self, x):
        if isinstance(x, RF):
            z = mp.mpc(self.num(x))
            return "(%s,%s)" % (mp.nstr(z.real, 15), mp.nstr(z.imag, 15) if abs(z.imag) > 1e-25 else "0")
        if isinstance(x, tuple):
            return "(" + ",".join(self.key(y) for y in x) + ")"
        if isinstance(x, val.Gam):
            return self.key(self.pick(x))
        return repr(x)

    def poly(self, p, mag=None):
        s = mp.mpf(0)
        for m, c in p.items():
            t = mp.mpf(c.numerator) / c.denominator
            for k, e in m:
                z = self.atom(k)
                if type(e) is int:
                    if e < 0 and z == 0:
                        raise Bad
                    t *= z ** e
                else:
                    if z == 0 and e < 0:
                        raise Bad
                    t *= mp.power(z, mp.mpf(e.numerator) / e.denominator)
            s += t
            if mag is not None:
                mag[0] += abs(t)
        return s

    def num(self, x):
        s = self.poly(x.num)
        for pid, e in x.den:
            d = self.poly(nf.POLY(pid).poly)
            if abs(d) < mp.mpf(10) ** -25:
                raise Bad
            s /= d ** e
        return s

    def size(self, x):
        """magnitude of the terms that make up x"""
        s = sum((abs(self.poly({m: c})) for m, c in x.num.items()), mp.mpf(0))
        for pid, e in x.den:
            s /= abs(self.poly(nf.POLY(pid).poly)) ** e
        return s

    def real(self, x):
        z = mp.mpc(self.num(x))
        if abs(z.imag) > mp.mpf(10) ** -20 * (1 + abs(z.real)):
            raise Bad
        return z.real

    def sign(self, x):
        mag = [mp.mpf(0)]
        z = mp.mpc(self.poly(x.num, mag))
        if abs(z) <= mp.mpf(10) ** -28 * mag[0]:
            return 0
        for pid, e in x.den:
            d = self.poly(nf.POLY(pid).poly, mag)
            if d == 0:
                raise Bad
            z /= d ** e
        if abs(z.imag) > mp.mpf(10) ** -20 * abs(z.real):
            raise Bad
        return 1 if z.real > 0 else -1

    def cond(self, g):
        x = val.xs(g.xid)
        if not isinstance(x, RF):
            return random.Random("%s %s" % (self.seed, repr(x))).random() < 0.5
        s = self.sign(x)
        return bool(g.mask & (val.ZERO if s == 0 else val.POS if s > 0 else val.NEG))

    def pick(self, v):
        while isinstance(v, val.Gam):
            v = v.t if self.cond(v) else v.f
        return v


ERR = (Bad, TypeError, ValueError, ZeroDivisionError, OverflowError, mpmath.libmp.NoConvergence if hasattr(mpmath.libmp, "NoConvergence") else Bad)


def points(n=N):
    return [Point(i) for i in range(n)]


def close(x, y):
    return abs(x - y) <= mp.mpf(10) ** -12 * (abs(x) + abs(y)) + mp.mpf(10) ** -18


def agree(a, b, p):
    """same value at the point (True/False); Bad when undefined there."""
    if isinstance(a, bool):
        a = nf.rf_const(int(a))
    if isinstance(b, bool):
        b = nf.rf_const(int(b))
    if isinstance(a, val.Gam) or isinstance(b, val.Gam):
        return agree(p.pick(a), p.pick(b), p)
    if isinstance(a, RF) and isinstance(b, RF):
        x, y = p.num(a), p.num(b)
        if close(x, y):
            return True
        if abs(x - y) <= mp.mpf(10) ** -(DIG - 8) * (p.size(a) + p.size(b)):
            raise Bad       # lost in cancellation
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(agree(x, y, p) for x, y in zip(a, b))
    if isinstance(a, RF) or isinstance(b, RF):
        return False
    return type(a) is type(b) and bool(a == b)


def leaf_agrees(a, b, pts):
    if val.val_eq(a, b):
        return True
    ok = 0
    for p in pts:
        try:
            if not agree(a, b, p):
                return False
            ok += 1
        except ERR:
            continue
    return ok >= 8


def psign(p, xid):
    """sign of an interned condition at a point; None where undefined."""
    d = p.signs
    if xid not in d:
        try:
            d[xid] = p.sign(val.xs(xid))
        except ERR:
            d[xid] = None
    return d[xid]


BIT = {1: val.POS, 0: val.ZERO, -1: val.NEG}


def same_zero_set(p, q, sg, va, pts, ctx):
    """sign(q) = sg*sign(p) also next to the zeros of p, on segments between sample points, within the context."""
    names = sorted(nf.syms_of(p) | nf.syms_of(q) | set().union(*[nf.syms_of(val.xs(i)) for i in ctx]))
    pos = [i for i, s in enumerate(va) if s == 1]
    neg = [i for i, s in enumerate(va) if s == -1]
    done = tried = 0
    pairs = [(i, j) for i in pos for j in neg]
    random.Random(1).shuffle(pairs)
    for i, j in pairs[:25]:
        if done >= 5:
            break
        a, b = pts[i], pts[j]
        try:
            for n in names:
                a.symval(nf.sym_atom(n)), b.symval(nf.sym_atom(n))
            if any(nf.sym_atom(n).integer and a.env[n] != b.env[n] or n in ("inf", "nan") for n in names):
                b = Point("x", {n: b.env[n] if not nf.sym_atom(n).integer and n not in ("inf", "nan") else a.env[n] for n in names})

            def at(l):
                return Point("%s-%s" % (i, j), {n: a.env[n] if a.env[n] == b.env[n] else a.env[n] * (1 - l) + b.env[n] * l for n in names})

            def inside(z):
                return all(BIT[z.sign(val.xs(k))] & m for k, m in ctx.items())
            lo, hi = mp.mpf(0), mp.mpf(1)
            if at(lo).sign(p) != 1 or at(hi).sign(p) != -1:
                continue
            for _ in range(45):
                mid = (lo + hi) / 2
                if at(mid).sign(p) > 0:
                    lo = mid
                else:
                    hi = mid
            x, y = at(lo), at(hi)
            if not (inside(x) and inside(y)):
                continue
            if x.sign(q) != sg or y.sign(q) not in (-sg, 0):
                return False
            done += 1
        except ERR:
            continue
    return done >= 2


def flip(m):
    return (val.POS if m & val.NEG else 0) | (m & val.ZERO) | (val.NEG if m & val.POS else 0)


def unify(a, b, pts, ctx):
    """rewrite a and b so that conditions with the same sign set (in the context) are the same condition."""
    ids = list(dict.fromkeys(list(val.conds(a)) + list(val.conds(b))))
    rf = [i for i in ids if isinstance(val.xs(i), RF)]
    vec = {i: [psign(p, i) for p in pts] for i in rf}
    ren = {}
    for n, i in enumerate(rf):
        if i in ren:
            continue
        for j in rf[n + 1:]:
            if j in ren:
                continue
            pr = [(x, y) for x, y in zip(vec[i], vec[j]) if x is not None and y is not None]
            if len(pr) < 8 or not (any(x > 0 for x, _ in pr) and any(x < 0 for x, _ in pr)):
                continue
            for sg in (1, -1):
                if all(y == sg * x for x, y in pr) and same_zero_set(val.xs(i), val.xs(j), sg, vec[i], pts, ctx):
                    ren[j] = (i, sg)
                    break
    if not ren:
        return a, b

    def walk(v):
        if isinstance(v, tuple):
            return tuple(walk(z) for z in v)
        if not isinstance(v, val.Gam):
            return v
        i, m = v.xid, v.mask
        if i in ren:
            i, sg = ren[i]
            m = m if sg > 0 else flip(m)
        return val.ite(val.mk(i, m, True, False), walk(v.t), walk(v.f))
    return walk(a), walk(b)


def size(i):
    x = val.xs(i)
    return len(nf.atoms_of(x)) + len(x.num) if isinstance(x, RF) else 0


BUDGET = [0.0, 25.0, 150.0]      # deadline of this comparison, seconds per comparison, seconds in all


def same_under(a, b, leaf_eq, pts, zeros, signs, ctx):
    """the two graphs agree on the region described by ctx, up to differences the algebra does not see."""
    tick()
    if val._equal(a, b, leaf_eq, zeros, signs)[0]:
        return True
    cs = val.conds(a)
    val.conds(b, cs)
    if not cs:
        return leaf_agrees(a, b, pts)
    a, b = unify(a, b, pts, ctx)
    cs = val.conds(a)
    val.conds(b, cs)
    if not cs:
        return leaf_agrees(a, b, pts)
    i = min(cs, key=lambda k: (size(k), k))
    allm = cs[i]
    blocks = [val.POS, val.ZERO, val.NEG]
    if all(bool(m & val.ZERO) == bool(m & val.POS) for m in allm):
        blocks = [val.POS | val.ZERO, val.NEG]
    elif all(bool(m & val.ZERO) == bool(m & val.NEG) for m in allm):
        blocks = [val.POS, val.ZERO | val.NEG]
    elif all(bool(m & val.NEG) == bool(m & val.POS) for m in allm):
        blocks = [val.POS | val.NEG, val.ZERO]
    for s in blocks:
        x, y = val.cofactor(a, i, s), val.cofactor(b, i, s)
        z = tuple(zeros) + ((i,) if s == val.ZERO else ())
        sg = {**signs, i: s}
        if s == val.ZERO or not isinstance(val.xs(i), RF):
            if not val._equal(x, y, leaf_eq, z, sg)[0]:
                return False
            continue
        sub = [p for p in pts if psign(p, i) is not None and BIT[psign(p, i)] & s]
        if not same_under(x, y, leaf_eq, sub, z, sg, {**ctx, i: s}):
            return False
    return True


def spurious(a, b, leaf_eq):
    """True if the difference between the two graphs is an artefact of the algebra."""
    if len(val.conds(a)) + len(val.conds(b)) > 40:
        return False
    if BUDGET[2] <= 0:
        return False
    t0 = time.time()
    BUDGET[0] = t0 + min(BUDGET[1], BUDGET[2])
    try:
        return same_under(a, b, leaf_eq, points(), (), {}, {})
    except OutOfTime:
        # no time for the regions: the difference stands if some point shows it
        BUDGET[0] = time.time() + 20
        try:
            return leaf_agrees(a, b, points(60))
        except OutOfTime:
            return False
    finally:
        BUDGET[2] -= time.time() - t0
