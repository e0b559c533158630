"""Abstract values of the interpreter and operations on gated values."""
from . import nf
from .nf import RF

NEG, ZERO, POS = 1, 2, 4


class Undecided(Exception):
    """The analysis does not model a construct; the obligation stays open."""

    def __init__(self, msg, node=None):
        super().__init__(msg)
        self.node = node


class AbsRaise(Exception):
    """The analysed program raises."""

    def __init__(self, exc, msg="", node=None, where=None, value=None):
        super().__init__("%s: %s" % (exc, msg))
        self.exc = exc
        self.msg = msg
        self.node = node
        self.where = where
        self.value = value


class TRF(RF):
    """A constant that stems from a specialised (fixed) parameter such as the lattice depth.

    prov says how it varies with that parameter: (kind, uid, lo, fn) means fn(v) for some integer v >= lo, where
    kind is 'n' for the parameter itself and 'i' for a loop variable; None if unknown."""
    __slots__ = ("prov",)

    def __init__(self, num, den=(), prov=None):
        RF.__init__(self, num, den)
        self.prov = prov


def num(c):
    return nf.rf_const(c)


class Cond:
    """atomic condition: sign(x) in mask, x a canonical RF; or opaque key."""
    __slots__ = ("x", "mask", "id", "key")
    table = []

    def __init__(self, x, mask, key=None):
        self.x, self.mask, self.key = x, mask, key

    def __repr__(self):
        if self.x is None:
            return "<%s>" % (self.key,)
        op = {1: "<", 2: "==", 3: "<=", 4: ">", 5: "!=", 6: ">="}[self.mask]
        return "%s %s 0" % (nf.show(self.x), op)


_XS = []  # interned condition expressions (list of RF or key)


def reset():
    _XS.clear()


def _xid(x):
    for i, y in enumerate(_XS):
        if isinstance(x, RF):
            if isinstance(y, RF) and nf.eq(x, y):
                return i
        elif not isinstance(y, RF) and nf.arg_eq(x, y):
            return i
    _XS.append(x)
    return len(_XS) - 1


def xs(i):
    return _XS[i]


class Gam:
    """gated value: if sign(x[xid]) in mask then t else f (mask one of POS, POS|ZERO, ZERO)."""
    __slots__ = ("xid", "mask", "t", "f", "npb")

    def __init__(self, xid, mask, t, f):
        self.xid, self.mask, self.t, self.f = xid, mask, t, f

    def cond(self):
        x = _XS[self.xid]
        return Cond(x, self.mask) if isinstance(x, RF) else Cond(None, self.mask, x)

    def __repr__(self):
        return "(%r ? %s : %s)" % (self.cond(), show(self.t), show(self.f))


def clone(v):
    """an equal value with an identity of its own"""
    if isinstance(v, TRF):
        return TRF(v.num, v.den, v.prov)
    if isinstance(v, RF):
        return RF(v.num, v.den)
    if isinstance(v, Gam):
        return Gam(v.xid, v.mask, v.t, v.f)
    return v


def show(v):
    if isinstance(v, RF):
        return nf.show(v)
    return repr(v)


def cmp_cond(x, mask):
    """boolean value of sign(x) in mask."""
    s = nf.sign_of(x)
    if s == 0:
        return bool(mask & ZERO)
    if s == 1:
        return bool(mask & POS)
    if s == -1:
        return bool(mask & NEG)
    poss = 7
    if s == 2:
        poss = ZERO | POS
    elif s == -2:
        poss = ZERO | NEG
    if poss & mask == poss:
        return True
    if poss & mask == 0:
        return False
    cont, p, sg = nf.orient(x)
    if sg < 0:
        mask = (POS if mask & NEG else 0) | (mask & ZERO) | (NEG if mask & POS else 0)
        poss = (POS if poss & NEG else 0) | (poss & ZERO) | (NEG if poss & POS else 0)
    xid = _xid(p)
    # use what is possible to normalise the mask
    if poss != 7:
        mask &= poss
        if mask == POS:
            mask = POS
        if poss == (ZERO | POS):
            # >0 or ==0
            return mk(xid, POS, True, False) if mask == POS else mk(xid, POS, False, True)
        if poss == (ZERO | NEG):
            return mk(xid, POS | ZERO, False, True) if mask == NEG else mk(xid, POS | ZERO, True, False)
    return mk(xid, mask, True, False)


def opq_cond(key):
    return mk(_xid(key), POS, True, False)


def mk(xid, mask, t, f):
    if mask == 7:
        return t
    if mask == 0:
        return f
    if mask in (NEG, NEG | ZERO, NEG | POS):
        mask = 7 & ~mask
        t, f = f, t
    return mkgam(xid, mask, t, f)


def val_eq(a, b):
    """structural/semantic equality of plain values (no heap)."""
    if a is b:
        return True
    if isinstance(a, RF):
        return isinstance(b, RF) and nf.eq(a, b)
    if isinstance(b, RF):
        return False
    if isinstance(a, Gam) or isinstance(b, Gam):
        if isinstance(a, Gam) and isinstance(b, Gam) and a.xid == b.xid and a.mask == b.mask:
            return val_eq(a.t, b.t) and val_eq(a.f, b.f)
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(val_eq(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def mkgam(xid, mask, t, f):
    """mask in POS / POS|ZERO / ZERO"""
    t = cofactor(t, xid, mask)
    f = cofactor(f, xid, 7 & ~mask)
    if val_eq(t, f):
        return t
    x = _XS[xid]
    if isinstance(t, RF) and isinstance(f, RF) and isinstance(x, RF) and mask in (POS, POS | ZERO):
        d = nf.sub(t, f)
        # t - f = k*x with k a constant/positive monomial
        try:
            k = nf.div(d, x)
        except ZeroDivisionError:
            k = None
        if k is not None and not k.den and len(k.num) == 1:
            return nf.add(f, nf.mul(k, nf.pospart(x)))
    return Gam(xid, mask, t, f)


def cofactor(v, xid, possible):
    """restrict v to sign(x) in possible."""
    if not isinstance(v, Gam):
        if isinstance(v, tuple):
            r = tuple(cofactor(z, xid, possible) for z in v)
            return r if any(a is not b for a, b in zip(r, v)) else v
        return v
    if v.xid == xid:
        if possible & v.mask == possible:
            return cofactor(v.t, xid, possible)
        if possible & v.mask == 0:
            return cofactor(v.f, xid, possible)
        t = cofactor(v.t, xid, possible & v.mask)
        f = cofactor(v.f, xid, possible & ~v.mask)
        if t is v.t and f is v.f:
            return v
        return mkgam(v.xid, v.mask, t, f)
    t = cofactor(v.t, xid, possible)
    f = cofactor(v.f, xid, possible)
    if t is v.t and f is v.f:
        return v
    return mkgam(v.xid, v.mask, t, f)


def apply(fn, *args):
    """distribute a pure function over gated arguments."""
    for a in args:
        if isinstance(a, Gam):
            xid, mask = a.xid, a.mask
            ta = [cofactor(z, xid, mask) for z in args]
            fa = [cofactor(z, xid, 7 & ~mask) for z in args]
            return mkgam(xid, mask, apply(fn, *ta), apply(fn, *fa))
    return fn(*args)


def leaves(v):
    if isinstance(v, Gam):
        yield from leaves(v.t)
        yield from leaves(v.f)
    else:
        yield v


def conds(v, acc=None):
    if acc is None:
        acc = {}
    if isinstance(v, Gam):
        acc.setdefault(v.xid, set()).add(v.mask)
        conds(v.t, acc)
        conds(v.f, acc)
    elif isinstance(v, tuple):
        for z in v:
            conds(z, acc)
    return acc


def _first(v):
    if isinstance(v, Gam):
        return v
    if isinstance(v, tuple):
        for z in v:
            r = _first(z)
            if r is not None:
                return r
    return None


def zero_subst(xids):
    """substitution implied by the given condition expressions being zero (linear in a symbol)."""
    env = {}
    for xid in xids:
        x = _XS[xid]
        if not isinstance(x, RF):
            continue
        x = nf.subst(x, env)
        for a in sorted((nf.ATOMS[k] for k in nf.direct_atoms(x)), key=lambda a: -a.id):
            if a.kind != "sym" or a.data in ("pi", "inf", "nan"):
                continue
            m1 = {m: c for m, c in x.num.items() if any(k == a.id for k, _ in m)}
            if len(m1) != 1:
                continue
            (m, c), = m1.items()
            if dict(m)[a.id] != 1:
                continue
            rest = {mm: cc for mm, cc in x.num.items() if mm != m}
            # the symbol must not hide inside other atoms of x
            coef = RF({tuple((k, e) for k, e in m if k != a.id): c})
            v = nf.div(nf.neg(RF(rest)), coef)
            if a.data in nf.syms_of(v):
                continue
            env = {k: nf.subst(z, {a.data: v}) for k, z in env.items()}
            env[a.data] = v
            break
    return env


def equal(a, b, leaf_eq=None):
    """decide equality of two gated values; returns (True, None) or (False, (assignment, leafA, leafB))."""
    return _equal(a, b, leaf_eq)


def equal_pos(a, b, leaf_eq=None):
    """one side may take a positive part where the other branches: split on the signs of the arguments of positive parts."""
    args = []
    n = 0
    if not (conds(a) or conds(b)):
        return False
    for v in (a, b):
        for x in rfs(v):
            n += len(x.num)
            if n > 400:
                return False
            for at in nf.atoms_of(x):
                if at.kind == "P" and not any(nf.eq(at.data[1][0], y) for y in args):
                    args.append(at.data[1][0])
    if not args or len(args) > 4:
        return False
    cases = [(a, b)]
    try:
        for p in args:
            cases = [(resolve_pos(x, p, s), resolve_pos(y, p, s)) for x, y in cases for s in (POS, NEG | ZERO)]
    except (ZeroDivisionError, nf.NFError):
        return False
    return all(_equal(x, y, leaf_eq)[0] for x, y in cases)


def rfs(v, acc=None):
    """every number of a gated value, conditions included."""
    acc = [] if acc is None else acc
    if isinstance(v, RF):
        acc.append(v)
    elif isinstance(v, tuple):
        for z in v:
            rfs(z, acc)
    elif isinstance(v, Gam):
        x = _XS[v.xid]
        if isinstance(x, RF):
            acc.append(x)
        rfs(v.t, acc)
        rfs(v.f, acc)
    return acc


def resolve_pos(v, p, s):
    """the value under sign(p) in s: positive parts of p, and gates on p, are resolved."""
    if isinstance(v, RF):
        return nf.replace_atoms(v, lambda a: (p if s & POS else num(0)) if a.kind == "P" and nf.eq(a.data[1][0], p) else None)
    if isinstance(v, tuple):
        return tuple(resolve_pos(z, p, s) for z in v)
    if isinstance(v, Gam):
        x = _XS[v.xid]
        if not isinstance(x, RF):
            return ite(opq_cond(x), resolve_pos(v.t, p, s), resolve_pos(v.f, p, s))
        if nf.eq(x, p):
            if s & v.mask == s:
                return resolve_pos(v.t, p, s)
            if s & v.mask == 0:
                return resolve_pos(v.f, p, s)
            return mkgam(v.xid, v.mask, resolve_pos(v.t, p, s), resolve_pos(v.f, p, s))
        y = resolve_pos(x, p, s)
        c = mk(v.xid, v.mask, True, False) if nf.eq(x, y) else cmp_cond(y, v.mask)
        return ite(c, resolve_pos(v.t, p, s), resolve_pos(v.f, p, s))
    return v


def _equal(a, b, leaf_eq=None, zeros=(), signs=None):
    g = _first(a)
    if g is None:
        g = _first(b)
    signs = signs or {}
    if g is None:
        le = leaf_eq or val_eq
        if le(a, b):
            return True, None
        a2, b2 = under_signs(a, signs), under_signs(b, signs)
        if (a2 is not a or b2 is not b) and le(a2, b2):
            return True, None
        if zeros:
            env = zero_subst(zeros)
            if env:
                try:
                    if le(subst_val(a2, env), subst_val(b2, env)):
                        return True, None
                except (ZeroDivisionError, nf.NFError):
                    return True, None  # undefined on the boundary in one of them
        return False, (signs, a, b)
    allm = set()
    for v in (a, b):
        allm |= conds(v).get(g.xid, set())
    blocks = [POS, ZERO, NEG]
    # merge sign blocks that no condition separates
    if all(bool(m & ZERO) == bool(m & POS) for m in allm):
        blocks = [POS | ZERO, NEG]
    elif all(bool(m & ZERO) == bool(m & NEG) for m in allm):
        blocks = [POS, ZERO | NEG]
    elif all(bool(m & NEG) == bool(m & POS) for m in allm):
        blocks = [POS | NEG, ZERO]
    for s in blocks:
        z = tuple(zeros) + ((g.xid,) if s == ZERO else ())
        ok, why = _equal(cofactor(a, g.xid, s), cofactor(b, g.xid, s), leaf_eq, z, {**signs, g.xid: s})
        if not ok:
            return ok, why
    return True, None


def under_signs(v, signs):
    """resolve positive parts whose argument has a known sign."""
    if not isinstance(v, RF) or not signs:
        return v

    def f(a):
        if a.kind != "P":
            return None
        arg = a.data[1][0]
        for xid, s in signs.items():
            x = _XS[xid]
            if isinstance(x, RF) and nf.eq(x, arg):
                if s & (NEG | ZERO) == s:
                    return nf.rf_const(0)
                if s & (POS | ZERO) == s:
                    return arg
        return None
    try:
        return nf.replace_atoms(v, f)
    except (ZeroDivisionError, nf.NFError):
        return v


def subst_val(v, env):
    if isinstance(v, RF):
        return nf.subst(v, env)
    if isinstance(v, tuple):
        return tuple(subst_val(z, env) for z in v)
    if isinstance(v, Gam):
        x = _XS[v.xid]
        if isinstance(x, RF):
            c = cmp_cond(nf.subst(x, env), v.mask)
        else:
            c = opq_cond(x)
        return ite(c, subst_val(v.t, env), subst_val(v.f, env))
    return v


def subst_gam(v, env):
    """substitution whose replacements may themselves be gated: one case per gate."""
    for z in env.values():
        if isinstance(z, Gam):
            c = mkgam(z.xid, z.mask, True, False)
            arms = []
            for m in (z.mask, 7 & ~z.mask):
                arms.append(subst_gam(v, {k: cofactor(y, z.xid, m) for k, y in env.items()}))
            return ite(c, *arms)
    return subst_val(v, env)


def fixed_gate(v, names):
    """is v a gated number whose gates do not mention any of the named symbols?"""
    if isinstance(v, RF):
        return True
    if not isinstance(v, Gam):
        return False
    x = _XS[v.xid]
    if not isinstance(x, RF) or nf.syms_of(x) & names:
        return False
    return fixed_gate(v.t, names) and fixed_gate(v.f, names)


def ite(c, t, f):
    """c boolean value (True/False/Gam of bools)."""
    if c is True:
        return t
    if c is False:
        return f
    return _ite(c, t, f)


def _ite(c, t, f):
    if isinstance(c, Gam):
        return mkgam(c.xid, c.mask, _ite(c.t, cofactor(t, c.xid, c.mask), cofactor(f, c.xid, c.mask)),
                     _ite(c.f, cofactor(t, c.xid, 7 & ~c.mask), cofactor(f, c.xid, 7 & ~c.mask)))
    return t if c else f


def b_not(c):
    return apply(lambda z: not z, c)


def b_and(a, b):
    return apply(lambda x, y: bool(x and y), a, b)


def b_or(a, b):
    return apply(lambda x, y: bool(x or y), a, b)


def describe_signs(signs):
    out = []
    for xid, s in signs.items():
        op = {1: "<", 2: "==", 3: "<=", 4: ">", 5: "!=", 6: ">="}[s]
        x = _XS[xid]
        out.append("%s %s 0" % (nf.show(x), op) if isinstance(x, RF) else "%s%s" % ("" if s & POS else "not ", x))
    return " and ".join(out) or "always"
