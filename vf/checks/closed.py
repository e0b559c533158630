"""C13, C14, C15, C24, C27: closed forms, approximations and distribution functions."""
from .. import nf, val
from ..nf import RF
from ..val import AbsRaise, Gam, num
from ..interp import StrV, OpqV, Ref, ArrV, PyFn, FuncV, BoundV
from ..env import *
from ..env import variants, describe, arr_params
from .greeks import is_fn, maprf, has_fn, price_of
from .lattice import either

EUROPEAN = GBS_FAMILY + ["MiltersenSchwartzOption", "SpreadApproxOption"]


def euro_args(nm, kw):
    """argument tuple of the reference formula."""
    if nm in ("GBSOption", "BlackScholesOption"):
        return "gbs", [kw[k] for k in ("S", "K", "t", "r", "b", "sigma")]
    if nm == "Black76Option":
        return "gbs", [kw["FT"], kw["K"], kw["t"], kw["r"], num(0), kw["sigma"]]
    if nm == "MiltersenSchwartzOption":
        return "ms", [kw[k] for k in ("Pt", "FT", "K", "t", "T", "sigmaS", "sigmaE", "sigmaF", "rhoSE", "rhoSF", "rhoEF", "KappaE", "KappaF")]
    return "kirk", [kw[k] for k in ("S1", "S2", "K", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "Q1", "Q2")]


def euro_cases(E):
    """(class, label, kwargs): generic symbols, plus the declared defaults where there are any."""
    for nm in EUROPEAN:
        c = E.cls(nm)
        names, dflt = E.ctor_params(c)
        yield c, nm, "", lambda c=c: E.params(c)
        skip = [n for n in names if n in dflt and dflt[n] is not None]
        if skip:
            yield c, nm, "defaults", lambda c=c, skip=skip: E.params(c, skip=skip)
        for p in ("r", "b", "b1", "b2", "rho", "rhoEF", "rhoSE", "rhoSF"):
            if p in names:
                yield c, nm, "%s=0" % p, lambda c=c, p=p: E.params(c, **{p: num(0)})


def full_kw(E, c, kw):
    names, d = E.ctor_params(c)
    out = {n: d[n] for n in names if n in d}
    out.update(kw)
    return out


def c13(E):
    rule = "call - put = discounted forward - discounted strike"
    I = E.I
    ex = nf.exp

    def one(nm, lab, kw, c):
        kf = full_kw(E, c, kw)
        o = E.make(c, kw)
        v = I.binop("Sub", E.ask(o, "call"), E.ask(o, "put"))
        n = lambda k: I.tonum(kf[k])
        disc = lambda x: nf.exp(nf.mul(x, n("t")))
        if nm == "Black76Option":
            w = nf.mul(disc(nf.neg(n("r"))), nf.sub(n("FT"), n("K")))
        elif nm in GBS_FAMILY:
            w = nf.sub(nf.mul(n("S"), disc(nf.sub(n("b"), n("r")))), nf.mul(n("K"), disc(nf.neg(n("r")))))
        elif nm == "MiltersenSchwartzOption":
            x = E.spec("ms_vxz", *euro_args(nm, kf)[1][3:])
            w = val.apply(lambda x: nf.mul(n("Pt"), nf.sub(nf.mul(n("FT"), nf.exp(nf.neg(x))), n("K"))), x)
        elif nm == "SpreadApproxOption":
            f1 = nf.mul(nf.mul(n("Q1"), n("S1")), disc(nf.sub(n("b1"), n("r"))))
            f2 = nf.mul(nf.mul(n("Q2"), n("S2")), disc(nf.sub(n("b2"), n("r"))))
            w = nf.sub(nf.sub(f1, f2), nf.mul(n("K"), disc(nf.neg(n("r")))))
        else:
            w = nf.sub(n("S"), nf.mul(n("K"), disc(nf.neg(n("r")))))
        return v, w
    cases = [(c, nm, lab, mk) for c, nm, lab, mk in euro_cases(E)]
    hn = E.cls("HestonNandiOption")
    for t in (1, 2, 3) + ((4, 5) if E.thorough else ()):
        cases.append((hn, "HestonNandiOption", "t=%d" % t, lambda t=t: E.params(hn, t=E.tconst(t), skip=("model",))))

    def job(case):
        c, nm, lab, mk = case
        name = describe(c, lab)
        E.fresh()
        try:
            v, w = one(nm, lab, mk(), c)
        except AbsRaise as e:
            E.viol("%s parity" % name, e.where or E.where(c, "put"), "raises %s (%s)" % (e.exc, e.msg), rule)
            return
        except SOFT as e:
            E.und("%s parity" % name, str(e), rule)
            return
        E.check_eq("%s: call - put" % name, E.outcome(lambda: v), E.flat(w), E.where(c, "put"), rule)
    E.parallel(cases, job)


def c14(E):
    rule = "price graph equals the published formula"

    def job(case):
        c, nm, lab, mk = case
        name = describe(c, lab)
        for side, z in (("call", 1), ("put", -1)):
            E.fresh()
            kw = mk()
            got = E.outcome(lambda: E.ask(E.make(c, kw), side))
            f, a = euro_args(nm, full_kw(E, c, kw))
            want = E.outcome(lambda: E.spec(f, num(z), *a))
            if want.kind != "val":
                E.und("%s.%s" % (name, side), "reference: %s" % want, rule)
                continue
            E.check_eq("%s.%s" % (name, side), got, want, E.where(c, side), rule)
    E.parallel(list(euro_cases(E)), job)


# ------------------------------------------------------------------ C15

def loop_syms(v, out=None):
    out = set() if out is None else out
    for z in (val.leaves(v) if isinstance(v, Gam) else [v]):
        if isinstance(z, RF):
            out |= {s for s in nf.syms_of(z) if s.startswith("loop")}
    return out


def lam_env(L):
    return {"mu%d.%s" % (d, n): s for d in range(6) for n, s in L.lam.items()}


def at_exit(L, v):
    return val.subst_val(v, lam_env(L))


def candidates(E, v):
    """(loop, name, value) of every loop-carried quantity the value may stand on."""
    out = []
    for L in E.I.loops:
        mine = {"loop%d.%s" % (L.id, n) for n in L.lam}
        if not (loop_syms(v) & mine):
            continue
        seen = []
        for n in list(L.drivers) + [m for m in L.exit_vals if m not in L.drivers]:
            z = L.lam[n] if n in L.lam else at_exit(L, L.exit_vals[n])
            if isinstance(z, RF) and not any(nf.eq(z, y) for y in seen):
                seen.append(z)
                out.append((L, n, z))
    return out


def match_loop(E, name, got, ref, where, rule):
    """find the loop quantity X with got == ref(X); returns (loop, name, X) or None."""
    cands = candidates(E, got.v)
    best = None
    for L, n, X in cands:
        w = E.outcome(lambda: ref(X))
        if w.kind != "val":
            continue
        r, why = E.cmp_out(got, w)
        if r is True:
            E.ok("%s with critical price %s" % (name, n), rule)
            return L, n, X
        if best is None or r is False and best[0] is None:
            best = (r, why, n)
    if not cands:
        r, why = E.cmp_out(got, E.outcome(lambda: ref(nf.sym("critical"))))
        E.viol(name, where, "the price does not depend on an iterated critical price; %s" % why, rule) if r is False else E.und(name, "no iteration found", rule)
        return None
    if best is None or best[0] is None:
        E.und(name, best[1] if best else "no comparable candidate", rule)
    else:
        E.viol(name, where, "no iterated quantity makes the price the model's; with %s as critical price: %s" % (best[2], best[1]), rule)
    return None


def check_cond(E, name, L, want, rule):
    got = E.outcome(lambda: at_exit(L, L.exit_cond))
    w = E.outcome(lambda: E.I.truth(want()))
    if w.kind != "val":
        E.und(name, "reference: %s" % w, rule)
        return
    E.check_eq(name, got, w, L.where, rule)


def c15(E):
    rule = "price graph equals the model's, over the iterated critical price"
    I = E.I
    P = ("S", "K", "t", "r", "b", "sigma")

    def baw(_):
        c = E.cls("BAWAmericanApproxOption")
        for side, z in (("call", 1), ("put", -1)):
            E.fresh()
            kw = E.params(c)
            a = [kw[k] for k in P]
            got = E.q(E.make(c, kw), side)
            nm = "BAWAmericanApproxOption.%s" % side
            if got.kind != "val":
                E.viol(nm, got.where or E.where(c, side), repr(got), rule) if got.kind == "exc" else E.und(nm, got.msg, rule)
                continue
            hit = match_loop(E, nm, got, lambda X: E.spec("baw_" + side, *a, X), E.where(c, side), rule)
            if hit is None:
                continue
            L, n, X = hit
            check_cond(E, "%s: iteration stops exactly on the smooth-fit residual" % nm, L, lambda: E.spec("baw_done", num(z), *a[1:], X), "loop exit condition")
            if n not in L.drivers:
                ds = [x for x in L.drivers if isinstance(L.lam[x], RF) and nf.eq(L.lam[x], X)]
                n = ds[0] if ds else None
            if n is None:
                E.und("%s: iteration" % nm, "the critical price is not carried by the loop", "Newton iteration")
                continue
            E.check_eq("%s: iteration starts at the published seed" % nm, E.outcome(lambda: L.init[n]), E.outcome(lambda: E.spec("baw_seed", num(z), *a[1:])), L.where, "Newton iteration")
            either(E, "%s: every turn is a Newton step" % nm, E.outcome(lambda: at_exit(L, L.next[n])),
                   [lambda d=d: E.spec("baw_next", num(z), *a[1:], X, d) for d in (False, True)], L.where, "Newton iteration")
        # European branch with b >= r holds whatever the iteration does
        E.fresh()
        kw = E.params(c)
        kw["b"] = nf.add(kw["r"], nf.sym("q"))
        got = E.q(E.make(c, kw), "call")
        E.check_eq("BAWAmericanApproxOption.call with b > r is European", got, E.outcome(lambda: E.spec("gbs", num(1), *[kw[k] for k in P])), E.where(c, "call"), rule)

    def bsa(_):
        c = E.cls("BSAmericanApproxOption")
        for side in ("call", "put"):
            for lab, over in (("", {}), ("b=r", "r"), ("b>r", "q"), ("b=0", num(0))):
                if side == "put" and lab in ("b=r", "b>r"):
                    continue
                E.fresh()
                kw = E.params(c)
                if over == "r":
                    kw["b"] = kw["r"]
                elif over == "q":
                    kw["b"] = nf.add(kw["r"], nf.sym("q"))
                elif lab:
                    kw["b"] = over
                S, K, t, r, b, s = [kw[k] for k in P]
                nm = "%s.%s" % (describe(c, lab), side)
                got = E.q(E.make(c, kw), side)
                a = (S, K, t, r, b, s) if side == "call" else (K, S, t, nf.sub(r, b), nf.neg(b), s)
                w = E.outcome(lambda: val.apply(lambda p: I.mkdict([("OptionPrice", p[0]), ("TriggerPrice", p[1])]), E.spec("bs_american_call", *a)))
                if w.kind != "val":
                    E.und(nm, "reference: %s" % w, rule)
                    continue
                E.check_eq(nm, got, w, E.where(c, side), rule)

    def rgw(_):
        c = E.cls("RollGeskeWhaleyOption")
        Q = ("K", "t", "td", "r", "D", "sigma")
        for lab in ("",):
            E.fresh()
            kw = E.params(c)
            o = E.make(c, kw)
            q = [kw[k] for k in Q]
            st = E.snap()
            got = E.q(o, "is_call_optimal")
            E.check_eq("RollGeskeWhaleyOption.is_call_optimal", got, E.outcome(lambda: val.b_not(I.truth(E.spec("rgw_never", *q[:5])))), E.where(c, "is_call_optimal"), rule)
            E.at(st)
            E.I.guards.clear()
            got = E.q(o, "call")
            nm = "RollGeskeWhaleyOption.call"
            if got.kind != "val":
                E.viol(nm, got.where or E.where(c, "call"), repr(got), rule) if got.kind == "exc" else E.und(nm, got.msg, rule)
                continue
            hit = match_loop(E, nm, got, lambda X: E.spec("rgw_call", kw["S"], *q, X), E.where(c, "call"), rule)
            if hit is None:
                continue
            L, n, X = hit
            found = None
            for h in L.drivers:
                for l in L.drivers:
                    H, Lo = L.lam[h], L.lam[l]
                    if h == l or not nf.eq(X, nf.div(nf.add(H, Lo), num(2))):
                        continue
                    w = E.outcome(lambda: I.truth(E.spec("rgw_done", *q, H, Lo)))
                    r, why = E.cmp_out(E.outcome(lambda: at_exit(L, L.exit_cond)), w)
                    if r is True or found is None:
                        found = (h, l, H, Lo, r, why)
                    w2 = E.outcome(lambda: E.spec("rgw_next", *q, H, Lo))
                    g2 = E.outcome(lambda: (at_exit(L, L.next[h]), at_exit(L, L.next[l])))
                    r2, why2 = E.cmp_out(E.outcome(lambda: val.apply(lambda x, y: (x, y), at_exit(L, L.next[h]), at_exit(L, L.next[l]))), w2)
                    if r is True and r2 is True:
                        break
                else:
                    continue
                break
            if found is None:
                E.und(nm + ": bisection", "critical price is not the midpoint of two carried bounds", "bisection")
                continue
            h, l, H, Lo, r, why = found
            check_cond(E, nm + ": bisection stops exactly on its tolerance", L, lambda: E.spec("rgw_done", *q, H, Lo), "loop exit condition")
            E.check_eq(nm + ": bisection keeps the sign change", E.outcome(lambda: val.apply(lambda x, y: (x, y), at_exit(L, L.next[h]), at_exit(L, L.next[l]))),
                       E.outcome(lambda: E.spec("rgw_next", *q, H, Lo)), L.where, "bisection")
            E.check_eq(nm + ": bisection starts at zero", E.outcome(lambda: L.init[l]), E.flat(num(0)), L.where, "bisection")
            # upper bound: exit value of the bracketing loop
            up = [M for M in I.loops if M is not L and any(nf.eq(L.init[h], M.lam[x]) for x in M.drivers)] if isinstance(L.init[h], RF) else []
            if not up:
                E.und(nm + ": bracketing", "start of the bisection is not the result of a loop", "bracketing")
                continue
            M = up[0]
            x = [x for x in M.drivers if nf.eq(L.init[h], M.lam[x])][0]
            check_cond(E, nm + ": bracketing stops exactly once the excess is not positive (or the limit is hit)", M, lambda: E.spec("rgw_bracketed", *q, M.lam[x]), "loop exit condition")
            E.check_eq(nm + ": bracketing starts at the stock price", E.outcome(lambda: M.init[x]), E.flat(kw["S"]), M.where, "bracketing")
            E.check_eq(nm + ": bracketing doubles", E.outcome(lambda: at_exit(M, M.next[x])), E.outcome(lambda: nf.mul(num(2), M.lam[x])), M.where, "bracketing")
    fns = {"baw": baw, "bsa": bsa, "rgw": rgw}
    E.parallel(["baw", "bsa", "rgw"], lambda k: fns[k](None))


# ------------------------------------------------------------------ C24

def c24(E):
    rule = "value graph equals the inversion formula with the model's integrand"
    hn = E.cls("HestonNandiOption")
    ts = (1, 2, 3) + ((4, 5) if E.thorough else ())
    jobs = ["call", "put", "delta", "put delta", "gamma"]

    def job(q):
        def run():
            for t in ts:
                one(t, q)
        E.explore(run)

    def one(t, q):
        E.fresh()
        kw = E.params(hn, t=E.tconst(t), skip=("model",))
        a = [kw[k] for k in ("lamb", "omega", "alpha", "beta", "gamma", "S", "K", "t", "r")]
        nm = "HestonNandiOption(t=%d).%s" % (t, q)
        o = E.make(hn, kw)
        meth, k = {"put delta": ("delta", {"call": False})}.get(q, (q, {}))
        got = E.q(o, meth, **k)

        def want():
            if q == "call":
                return E.spec("hn_call", *a)
            if q == "put":
                c = E.spec("hn_call", *a)
                return nf.sub(nf.add(c, nf.mul(kw["K"], nf.exp(nf.neg(nf.mul(kw["r"], num(t)))))), kw["S"])
            if q == "gamma":
                return E.spec("hn_gamma", *a)
            return E.spec("hn_delta", num(-1 if q == "put delta" else 1), *a)
        w = E.outcome(want)
        if w.kind != "val":
            E.und(nm, "reference: %s" % w, rule)
            return
        r, why = E.cmp_out(got, w)
        if r is False and got.kind == "val":
            # integrals are linear and Re z = (z + conj z)/2: compare the combined integrands
            try:
                r2, why2 = E.cmp_out(Out("val", combine(got.v)), Out("val", combine(w.v)))
                if r2 is True:
                    r = True
            except SOFT:
                pass
        if r is True:
            E.ok(nm, rule)
        elif r is None:
            E.und(nm, why, rule)
        else:
            E.viol(nm, got.where if got.kind == "exc" and got.where else E.where(hn, meth), why, rule)
    E.parallel(jobs, job)


def conj(x):
    return nf.replace_atoms(x, lambda a: nf.neg(nf.rf_atom(a)) if a.kind == "I" else None)


def combine(v):
    """replace every integral over the same range by its integrand times a marker, real parts written out."""
    def real_atom(a):
        if a.kind == "real":
            z = a.data[1][0]
            return nf.div(nf.add(z, conj(z)), num(2))
        return None

    def atom(a):
        if is_fn(a, "int"):
            body, lo, hi = a.data[1]
            if isinstance(body, RF):
                mark = nf.fn("range", lo, hi)
                return nf.mul(mark, nf.replace_atoms(body, real_atom))
        return None
    return maprf(v, lambda x: nf.replace_atoms(x, atom))


# ------------------------------------------------------------------ C27

def c27(E):
    rule = "distribution function body equals its documented definition"
    I = E.I
    c = E.cls("GBSOption")
    E.fresh()
    o = E.make(c, E.params(c))
    base = E.cls("_Base") if I.find_class("_Base") else c
    st = E.snap()

    def run(fn):
        E.at(st)
        old = I.lemma_on
        I.lemma_on = False
        try:
            return E.outcome(fn)
        finally:
            I.lemma_on = old

    wc, wn, wb = E.where(c, "_CND"), E.where(c, "_NDF"), E.where(c, "_CBND")
    xs = [("x>0", nf.sym("x")), ("x<0", nf.neg(nf.sym("x"))), ("x=0", num(0)), ("any x", nf.sym("y", pos=False))]
    for lab, x in xs:
        got = run(lambda: E.ask(o, "_CND", x))
        E.check_eq("_CND(%s) is the documented polynomial" % lab, got, run(lambda: E.spec("cnd_poly", x)), wc, rule)
        s = run(lambda: I.binop("Add", E.ask(o, "_CND", x), E.ask(o, "_CND", I.tonum(nf.neg(x)))))
        E.check_eq("_CND(x) + _CND(-x) = 1 for %s" % lab, s, E.flat(num(1)), wc, "symmetry")
        E.check_eq("_NDF(%s) is the normal density" % lab, run(lambda: E.ask(o, "_NDF", x)), run(lambda: E.spec("ndf", x)), wn, rule)
    E.check_eq("_CND(0) = 1/2", run(lambda: E.ask(o, "_CND", num(0))), E.flat(nf.rf_const(nf.Fr(1, 2))), wc, rule)
    arr = lambda: I.arr_from([nf.sym("x"), nf.neg(nf.sym("z")), num(0)], (3,))
    for f, w in (("_CND", wc), ("_NDF", wn)):
        got = run(lambda: E.ask(o, f, arr()))
        want = run(lambda: I.arr_from([E.ask(o, f, z) for z in (nf.sym("x"), nf.neg(nf.sym("z")), num(0))], (3,)))
        E.check_eq("%s works element by element" % f, got, want, w, rule)

    def structured(fn, nested=True):
        """evaluate with inner bivariate calls opaque and the univariate distribution as an atom."""
        E.at(st)
        state = {"top": True}

        def hook(I, f, args, kw, node):
            fn_ = f.func if isinstance(f, BoundV) else f
            if not isinstance(fn_, FuncV):
                return None
            if fn_.name == "_CND" and isinstance(f, BoundV) and len(args) == 1:
                return (I.elementwise1(nf.CND, args[0]),)
            if fn_.name == "_CBND" and isinstance(f, BoundV) and len(args) == 3:
                if state["top"] and nested:
                    state["top"] = False
                    return None
                return (val.apply(lambda x, y, z: nf.fn("M", I.tonum(x), I.tonum(y), I.tonum(z)), *args),)
            return None
        old = I.lemma_on
        I.lemma_on = False
        I.hooks = [hook]
        try:
            return E.outcome(fn)
        finally:
            I.hooks = []
            I.lemma_on = old

    # bounds and correlation are written so that the quadrature's scaled bounds are symbols again:
    # a = +-A*sqrt(2(1-rho^2)), rho = +-q/(1+q) or +-(1-1e-12) (every |rho| < 1; rho = +-1 separately)
    A0, B0, q = nf.sym("A"), nf.sym("B"), nf.sym("q")
    one, two = num(1), num(2)
    near = nf.sub(one, nf.rf_const(nf.Fr(1, 10 ** 12)))
    rhos = {1: nf.div(q, nf.add(one, q)), 0: num(0)}
    sg = {1: lambda z: z, -1: nf.neg, 0: lambda z: num(0)}
    combos = [(i, j, k, ex) for i in (1, 0, -1) for j in (1, 0, -1) for k in (1, 0, -1) for ex in ((False, True) if k else (False,))]

    def job(combo):
        i, j, k, exact = combo
        inner = sg[k](near) if exact else sg[k](rhos[abs(k)])
        rho = sg[k](one) if exact else inner
        s = nf.sqrt(nf.mul(two, nf.sub(one, nf.powi(inner, 2))))
        a, b = nf.mul(sg[i](A0), s), nf.mul(sg[j](B0), s)
        lab = "_CBND(a%s0, b%s0, rho%s)" % ({1: ">", 0: "=", -1: "<"}[i], {1: ">", 0: "=", -1: "<"}[j], "=%d" % k if exact else {1: ">0", 0: "=0", -1: "<0"}[k])
        got = structured(lambda: E.ask(o, "_CBND", a, b, rho))
        if got.kind == "val" and any(z is None for z in (val.leaves(got.v) if isinstance(got.v, Gam) else [got.v])):
            E.viol("%s returns a number" % lab, wb, "returns None [%s]" % short(got.v), "totality")
            return
        if got.kind == "exc":
            E.viol("%s returns a number" % lab, got.where or wb, repr(got), "totality")
            return
        if got.kind == "und":
            E.und("%s returns a number" % lab, got.msg, "totality")
            return
        E.ok("%s returns a number" % lab, "totality")
        M = lambda x, y, z: nf.fn("M", x, y, z)
        rh = inner
        wants = []
        if i <= 0 and j <= 0 and k <= 0:
            wants.append(("base case", lambda: E.spec("cbnd_base", a, b, rh)))
        if i <= 0 and j >= 0 and k >= 0:
            wants.append(("N(a) - M(a,-b,-rho)", lambda: nf.sub(nf.CND(a), M(a, nf.neg(b), nf.neg(rh)))))
        if i >= 0 and j <= 0 and k >= 0:
            wants.append(("N(b) - M(-a,b,-rho)", lambda: nf.sub(nf.CND(b), M(nf.neg(a), b, nf.neg(rh)))))
        if i >= 0 and j >= 0 and k <= 0:
            wants.append(("N(a) + N(b) - 1 + M(-a,-b,rho)", lambda: nf.add(nf.sub(nf.add(nf.CND(a), nf.CND(b)), one), M(nf.neg(a), nf.neg(b), rh))))
        if i * j * k > 0:
            def split():
                den = nf.sqrt(nf.add(nf.sub(nf.powi(a, 2), nf.mul(nf.mul(two, rh), nf.mul(a, b))), nf.powi(b, 2)))
                r1 = nf.div(nf.mul(nf.sub(nf.mul(rh, a), b), num(i)), den)
                r2 = nf.div(nf.mul(nf.sub(nf.mul(rh, b), a), num(j)), den)
                return nf.sub(nf.add(M(a, num(0), r1), M(b, num(0), r2)), nf.rf_const(nf.Fr(1 - i * j, 4)))
            wants.append(("M(a,0,rho1) + M(b,0,rho2) - delta", split))
        res = None
        for wl, w in wants:
            want = structured(w, False)
            r, why = (None, str(want)) if want.kind != "val" else E.cmp_out(got, want)
            if r is True:
                E.ok("%s = %s" % (lab, wl), rule)
                return
            if res is None or r is False:
                res = (r, why, wl)
        if res[0] is None:
            E.und("%s = %s" % (lab, res[2]), res[1], rule)
        else:
            E.viol("%s = %s" % (lab, res[2]), wb, res[1], rule)
    E.parallel(combos, job)
