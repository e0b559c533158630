"""C10, C11, C12, C16: greeks and implied volatility."""
from .. import nf, val
from ..nf import RF
from ..val import AbsRaise, Gam, num
from ..interp import StrV, OpqV, Ref, ArrV, DerivV, PyFn, FuncV
from ..env import *
from ..env import variants, describe, arr_params

AMERICAN = ["RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption"]


# ------------------------------------------------------------------ helpers

def is_fn(a, *names):
    return isinstance(a.data, tuple) and len(a.data) == 2 and a.kind == "fn" and a.data[0] in names


def maprf(v, f):
    """apply f to every number of a flat value."""
    if isinstance(v, RF):
        return f(v)
    if isinstance(v, Gam):
        return val.mkgam(v.xid, v.mask, maprf(v.t, f), maprf(v.f, f))
    if isinstance(v, tuple):
        return tuple(maprf(z, f) for z in v)
    return v


def strip_opts(v):
    """drop step-size and accuracy options of numerical derivatives."""
    def atom(a):
        if is_fn(a, "D") and a.data[1][3] != ():
            return nf.fn("D", a.data[1][0], maprf(a.data[1][1], one), maprf(a.data[1][2], one), ())
        return None

    def one(x):
        return nf.replace_atoms(x, atom)
    return maprf(v, one)


def has_fn(v, *names):
    if isinstance(v, RF):
        return nf.has_atom(v, lambda a: is_fn(a, *names))
    if isinstance(v, Gam):
        return has_fn(v.t, *names) or has_fn(v.f, *names)
    if isinstance(v, tuple):
        return any(has_fn(z, *names) for z in v)
    return False


def price_of(E, c, kw, call=True):
    """the class's own price of a freshly built option."""
    o = E.make(c, kw)
    v = E.ask(o, "call" if call else "put")
    if isinstance(v, (Ref, Gam)):
        def pick(z):
            if isinstance(z, Ref) and E.I.rec(z).kind == "dict":
                for k, x in E.I.rec(z).data.values():
                    if k == "OptionPrice":
                        return x
            return z
        v = val.apply(pick, v)
    return v


def deriv(E, c, kw, p, call=True, order=1):
    """reference: numerical derivative (of the given order) of the class's own price in p, at p's current value."""
    def f(I, a, k, n):
        kk = dict(kw)
        kk[p] = a[0]
        return price_of(E, c, kk, call)
    return E.I.ext.deriv_call(DerivV(PyFn("price", f), {"n": num(order)}), [kw[p]], {}, None)


def elementwise(E, kw, fn, cnt):
    """array of fn(kw at position i)."""
    I = E.I
    out = []
    for i in range(cnt):
        ki = {k: (I.nd(v).reshape(-1)[i] if isinstance(v, ArrV) else v) for k, v in kw.items()}
        out.append(fn(ki))
    return I.arr_from(out, (cnt,))


# ------------------------------------------------------------------ C10

def fdm_cases(E):
    """(class, label, maker, extra query kwargs, kind, sides)"""
    thorough = E.thorough
    for nm in GBS_FAMILY:
        c = E.cls(nm)
        names, _ = E.ctor_params(c)
        yield c, "", (lambda c=c: E.params(c)), {"method": "fdm"}, "gbs", 0
        if "b" in names:
            yield c, "b=0", (lambda c=c: E.params(c, b=num(0))), {"method": "fdm"}, "gbs0", 0
            yield c, "arrays, b=0", (lambda c=c, names=names: dict(arr_params(E, c, [n for n in names if n != "b"], 2), b=num(0))), {"method": "fdm"}, "gbs0", 2
        yield c, "arrays", (lambda c=c, names=names: arr_params(E, c, names, 2, zero_b=False)), {"method": "fdm"}, "gbs", 2
    c = E.cls("MiltersenSchwartzOption")
    yield c, "", (lambda c=c: E.params(c)), {}, "ms", 0
    yield c, "FT, t, sigmaS arrays", (lambda c=c: arr_params(E, c, ["FT", "t", "sigmaS", "sigmaE", "sigmaF"], 2)), {}, "ms", 2
    for nm in AMERICAN:
        c = E.cls(nm)
        yield c, "", (lambda c=c: E.params(c)), {}, "one", 0
    for nm in LATTICES:
        c = E.cls(nm)
        for st in ("european", "american"):
            for n in (1, 2, 3) if thorough else (2,):
                yield c, "%s, n=%d" % (st, n), (lambda c=c, st=st, n=n: E.params(c, n=n, otype=st)), {}, "one", 0
    yield E.cls("SpreadApproxOption"), "", (lambda: E.params(E.cls("SpreadApproxOption"))), {}, "two", 0
    for nm in SPREADS:
        c = E.cls(nm)
        names, _ = E.ctor_params(c)
        for st in ("european", "american"):
            for k in (range(1, 10) if "option" in names else (0,)):
                if not thorough and k not in (0, 1, 4, 8):
                    continue
                for n in (1, 2) if thorough else (1,):
                    yield c, "%s%s, n=%d" % (st, ", payoff %d" % k if k else "", n), \
                        (lambda c=c, st=st, k=k, n=n: E.params(c, n=n, otype=st, option=k)), {}, "two", 0


def c10(E):
    rule = "greek = derivative node over the class's own price, side and input, evaluated at the current value"
    I = E.I

    def one(case):
        c, lab, mk, qk, kind, cnt = case
        name = describe(c, lab)
        E.fresh()
        kw = mk()
        # inputs handed to the option must not be shared with the reference
        try:
            o = E.make(c, kw)
        except SOFT + (AbsRaise,) as e:
            E.und("%s construction" % name, str(e), rule)
            return
        st = E.snap()
        names = E.ctor_params(c)[0]
        und = "FT" if "FT" in names else "S"
        sided = c.name != "RollGeskeWhaleyOption"

        def lift(fn):
            return elementwise(E, kw, fn, cnt) if cnt else fn(kw)

        def D(p, call=True, order=1):
            return lift(lambda k: deriv(E, c, k, p, call, order))

        def bop(op, a, b):
            return I.binop({"*": "Mult", "/": "Div"}[op], a, b, None)

        def adict(*items):
            return I.mkdict([(k, v) for k, v in items])

        def want(g, call):
            if kind == "two":
                if g in ("delta", "gamma"):
                    return adict(*[(p, D(p, call, 2 if g == "gamma" else 1)) for p in ("S1", "S2")])
                if g == "vega":
                    return adict(*[(p, D(p, True)) for p in ("sigma1", "sigma2")])
                if g == "lamb":
                    return adict(*[(p, lift(lambda k: bop("/", bop("*", deriv(E, c, k, p, call), k[p]), price_of(E, c, k, call)))) for p in ("S1", "S2")])
            if g == "delta":
                return D(und, call)
            if g == "gamma":
                return D(und, True, 2)
            if g == "theta":
                return lift(lambda k: bop("*", num(-1), deriv(E, c, k, "t", call)))
            if g == "rho":
                return D("r", call)
            if g == "vega" and kind == "ms":
                vs = [D(p, True) for p in ("sigmaS", "sigmaE", "sigmaF")]
                if cnt:
                    els = [I.nd(v).reshape(-1)[i] for i in range(cnt) for v in vs]
                    return I.arr_from(els, (cnt, 3))
                return I.arr_from(vs, (3,))
            if g == "vega":
                return D("sigma", True)
            if g == "lamb":
                return lift(lambda k: bop("/", bop("*", deriv(E, c, k, und, call), k[und]), price_of(E, c, k, call)))
            raise KeyError(g)

        todo = [("delta", 1), ("theta", 1), ("lamb", 1), ("gamma", 0), ("vega", 0)]
        if kind in ("gbs0", "one", "two") or c.name == "Black76Option":
            todo.append(("rho", 1))
        for g, hasside in todo:
            f, own = I.class_attr(c, g)
            if not isinstance(f, FuncV):
                raise Missing("%s.%s" % (c.name, g))
            sides = [({"call": True}, True), ({"call": False}, False), ({}, True)] if hasside and sided else [({}, True)]
            for sk, call in sides:
                args = ", ".join("%s=%s" % x for x in list(sk.items()) + list(qk.items()))
                lab2 = "%s.%s(%s)" % (name, g, args)
                E.at(st)
                got = E.q(o, g, **sk, **qk)
                E.at(st)
                ref = E.outcome(lambda: want(g, call))
                if ref.kind != "val":
                    E.und(lab2, "reference: %s" % ref, rule)
                    continue
                try:
                    if got.kind == "val":
                        got.v = strip_opts(got.v)
                    ref.v = strip_opts(ref.v)
                except SOFT as e:
                    E.und(lab2, str(e), rule)
                    continue
                r, why = E.cmp_out(got, ref)
                if r is False and got.kind == "val" and not has_fn(got.v, "D"):
                    E.und(lab2, "no numerical derivative node in the result (%s)" % short(got.v, 200), rule)
                    continue
                if r is True:
                    E.ok(lab2, rule)
                elif r is None:
                    E.und(lab2, why, rule)
                else:
                    E.viol(lab2, got.where if got.kind == "exc" and got.where else E.where(c, g), why, rule)
    E.parallel(list(fdm_cases(E)), one)


# ------------------------------------------------------------------ C11

def c11(E):
    rule = "greeks()[key] is the value of the method for the same side"
    I = E.I
    subs = []
    for c in E.option_classes():
        f, own = I.class_attr(c, "greeks")
        if not isinstance(f, FuncV):
            if c.name in OPTION_CLASSES:
                raise Missing("%s.greeks" % c.name)
            continue
        for lab, mk in variants(E, c, True, E.thorough):
            if lab != "no sigma":
                subs.append((c, lab, mk))

    def one(sub):
        c, lab, mk = sub
        name = describe(c, lab)
        E.fresh()
        try:
            o = E.make(c, mk(""))
        except SOFT + (AbsRaise,) as e:
            E.und("%s construction" % name, str(e), rule)
            return
        st = E.snap()
        keys = [("delta", "delta", 1), ("theta", "theta", 1), ("vega", "vega", 0), ("rho", "rho", 1), ("lambda", "lamb", 1), ("gamma", "gamma", 0)]
        if c.name == "MiltersenSchwartzOption":
            keys = [k for k in keys if k[0] != "rho"]
        if c.name in GBS_FAMILY:
            keys.append(("CofC", "c_of_c", 1))
        g, _ = I.class_attr(c, "greeks")
        a = g.node.args
        sided = any(x.arg == "call" for x in a.args + a.kwonlyargs)
        for sk in ({"call": True}, {"call": False}, {}) if sided else ({},):
            args = ", ".join("%s=%s" % x for x in sk.items())
            E.at(st)
            r = E.outcome(lambda: E.ask(o, "greeks", **sk), flat=False)
            if r.kind == "und":
                E.und("%s.greeks(%s)" % (name, args), r.msg, rule)
                continue
            stg = E.snap()
            for key, meth, ms in keys:
                lab2 = "%s.greeks(%s)[%s]" % (name, args, key)
                E.at(stg)

                def entry():
                    if r.kind == "exc":
                        raise AbsRaise(r.exc, r.msg)
                    return I.getitem(r.v, key)
                got = E.outcome(entry)
                if got.kind == "exc" and got.where is None:
                    got.where = r.where if r.kind == "exc" else E.where(c, "greeks")
                E.at(st)
                want = E.q(o, meth, **(sk if ms and sided else {}))
                if want.kind == "exc" and got.kind == "exc" and want.exc == got.exc:
                    E.ok(lab2, rule)
                    continue
                E.check_eq(lab2, got, want, E.where(c, "greeks"), rule)
    E.parallel(subs, one)


# ------------------------------------------------------------------ C12

def c12(E):
    rule = "analytic greek equals the exact symbolic derivative of the price graph"
    I = E.I

    def d(v, name):
        return val.apply(lambda z: nf.diff(I.tonum(z), name), v)

    for nm in GBS_FAMILY:
        c = E.cls(nm)
        names, _ = E.ctor_params(c)
        cases = [("", {})]
        if "b" in names:
            cases.append(("b=0", {"b": num(0)}))
        for lab, over in cases:
            E.fresh()
            kw = E.params(c)
            und = "FT" if "FT" in names else "S"
            price = {}
            bsym = nf.sym("b", pos=False)
            try:
                o = E.make(c, dict(kw, **over))
                st = E.snap()
                for call in (True, False):
                    price[call] = E.ask(o, "call" if call else "put")
                # price with a free cost of carry
                g = E.make(E.cls("GBSOption"), dict(S=kw[und], K=kw["K"], t=kw["t"], r=kw["r"], b=bsym, sigma=kw["sigma"]))
                free = {True: E.ask(g, "call"), False: E.ask(g, "put")}
                price0 = {k: v for k, v in free.items()}
            except SOFT + (AbsRaise,) as e:
                E.und("%s price" % describe(c, lab), str(e), rule)
                continue
            bval = over.get("b", num(0) if "b" not in names else bsym)

            def at_b(v):
                return v if bval is bsym else val.subst_val(v, {"b": bval})

            for call in (True, False):
                # the class's own price must be the one differentiated
                E.check_eq("%s price is GBS at its own b (%s)" % (describe(c, lab), "call" if call else "put"),
                           E.outcome(lambda: price[call]), at_b(free[call]), E.where(c, "call" if call else "put"), rule)

            def want(g, call):
                p = free[call]
                sn = und
                if g == "delta":
                    return at_b(d(p, sn))
                if g == "gamma":
                    return at_b(d(d(p, sn), sn))
                if g == "vega":
                    return at_b(d(p, "sigma"))
                if g == "theta":
                    return at_b(val.apply(nf.neg, d(p, "t")))
                if g == "c_of_c":
                    return at_b(d(p, "b"))
                if g == "lamb":
                    return at_b(val.apply(lambda x, y: nf.div(nf.mul(x, kw[und]), y), d(p, sn), p))
                if g == "rho":
                    fixed = d(p, "r")
                    moving = val.apply(nf.add, d(p, "r"), d(p, "b"))
                    if bval is not bsym:
                        return at_b(fixed)
                    return val.ite(val.cmp_cond(bsym, val.POS | val.NEG), moving, fixed)
            for g, ms in (("delta", 1), ("gamma", 0), ("vega", 0), ("theta", 1), ("rho", 1), ("c_of_c", 1), ("lamb", 1)):
                for sk, call in ([({"call": True}, True), ({"call": False}, False), ({}, True)] if ms else [({}, True), ({}, False)]):
                    for qk in ({}, {"method": "analytic"}) if g != "c_of_c" else ({},):
                        args = ", ".join("%s=%s" % x for x in list(sk.items()) + list(qk.items()))
                        lab2 = "%s.%s(%s) = derivative of %s" % (describe(c, lab), g, args, "call" if call else "put")
                        E.at(st)
                        got = E.q(o, g, **sk, **qk)
                        w = E.outcome(lambda: want(g, call))
                        if w.kind != "val":
                            E.und(lab2, "reference: %s" % w, rule)
                            continue
                        E.check_eq(lab2, got, w, E.where(c, g), rule)


# ------------------------------------------------------------------ C16

def c16(E):
    rule = "implied volatility is the root in sigma of price minus the class's own price"
    I = E.I
    cases = []
    for nm in GBS_FAMILY + ["RollGeskeWhaleyOption"]:
        c = E.cls(nm)
        names, _ = E.ctor_params(c)
        for sig in (False, True):
            skip = () if sig else ("sigma",)
            sl = "sigma set" if sig else "no sigma"
            cases.append((c, sl, (lambda c=c, skip=skip: E.params(c, skip=skip)), 0, 0))
            if nm in GBS_FAMILY:
                arr = [n for n in names if n != "sigma"]

                def mk(c=c, arr=arr, skip=skip):
                    kw = arr_params(E, c, arr, 2, zero_b=False)
                    for s in skip:
                        kw.pop(s, None)
                    return kw
                cases.append((c, "arrays, %s" % sl, mk, 2, 2))

                def mk1(c=c, skip=skip):
                    kw = arr_params(E, c, ["K"], 2)
                    for s in skip:
                        kw.pop(s, None)
                    return kw
                cases.append((c, "K array, %s" % sl, mk1, 2, 2))
                cases.append((c, "K array, one price, %s" % sl, mk1, 2, 0))
                cases.append((c, "price array, %s" % sl, (lambda c=c, skip=skip: E.params(c, skip=skip)), 2, 2))
    tol, mi = nf.sym("tol"), nf.sym("maxiter")

    def body_scalar(c, kw, price, call, sign):
        def f(I, a, k, n):
            v = price_of(E, c, dict(kw, sigma=a[0]), call)
            return I.binop("Sub", price, v) if sign > 0 else I.binop("Sub", v, price)
        return PyFn("residual", f)

    def strip_root(v, drop_start):
        """drop options (and start point) of root nodes."""
        def atom(a):
            if is_fn(a, "root") and a.data[1][-1] != ():
                return nf.fn("root", a.data[1][0], ())
            if is_fn(a, "rootv") and a.data[1][3] != ():
                return nf.fn("rootv", a.data[1][0], (), a.data[1][2], ())
            return None
        return maprf(v, lambda x: nf.replace_atoms(x, atom))

    def opts_of(v):
        out = []
        for z in val.leaves(v) if isinstance(v, Gam) else [v]:
            if isinstance(z, RF):
                for a in nf.atoms_of(z):
                    if is_fn(a, "root"):
                        out.append(dict(a.data[1][-1]))
        return out

    def one(case):
        c, lab, mk, cnt, pcnt = case
        sided = c.name in GBS_FAMILY
        E.fresh()
        kw = mk()
        if pcnt:
            price = I.arr_from([nf.sym("price%d" % i) for i in range(pcnt)], (pcnt,))
        else:
            price = nf.sym("price")
        try:
            o = E.make(c, kw)
        except SOFT + (AbsRaise,) as e:
            E.und("%s construction" % describe(c, lab), str(e), rule)
            return
        st = E.snap()
        for sk, call in [({"call": True}, True), ({"call": False}, False), ({}, True)] if sided else [({}, True)]:
            for verbose in (False, True, None):
                for ok in ({}, {"tol": tol, "maxiter": mi}):
                    if verbose is None and ok:
                        continue
                    qk = dict(sk, **ok)
                    if verbose is not None:
                        qk["verbose"] = verbose
                    args = ", ".join("%s=%s" % (k, nf.show(v) if isinstance(v, RF) else v) for k, v in qk.items())
                    lab2 = "%s.volatility(price, %s)" % (describe(c, lab), args)
                    E.at(st)
                    r = E.outcome(lambda: E.ask(o, "volatility", price, **qk), flat=False)
                    if r.kind == "und":
                        E.und(lab2, r.msg, rule)
                        continue
                    st2 = E.snap()

                    def result():
                        if r.kind == "exc":
                            raise AbsRaise(r.exc, r.msg)
                        if not verbose:
                            return r.v
                        return val.apply(lambda z: I.getattr(z, "x" if cnt else "root"), r.v)
                    got = E.outcome(result)
                    if got.kind == "exc":
                        E.viol(lab2, r.where or E.where(c, "volatility"), "raises %s (%s)" % (got.exc, got.msg), rule)
                        continue
                    if got.kind == "und":
                        E.und(lab2, got.msg, rule)
                        continue
                    if not verbose and not isinstance(got.raw, (RF, Gam, ArrV)):
                        E.viol(lab2, E.where(c, "volatility"), "returns %s instead of the root" % short(got.v, 200), rule)
                        continue
                    if not has_fn(got.v, "root", "rootv"):
                        E.und(lab2, "no root-solver node in the result (%s)" % short(got.v, 200), rule)
                        continue
                    res = None
                    for sign in (1, -1):
                        E.at(st2)

                        def want():
                            if not cnt:
                                return E.I.ext.optimize_call("brentq", [body_scalar(c, kw, price, call, sign), num(-10), num(10)], {}, None)
                            sol = E.I.ext.optimize_call("root", [body_scalar(c, kw, price, call, sign), I.arr_from([num(1)] * cnt, (cnt,))], {}, None)
                            return I.getattr(sol, "x")
                        w = E.outcome(want)
                        if w.kind != "val":
                            E.und(lab2, "reference: %s" % w, rule)
                            break
                        try:
                            a = Out("val", strip_root(got.v, True))
                            b = Out("val", strip_root(w.v, True))
                        except SOFT as e:
                            E.und(lab2, str(e), rule)
                            break
                        q, why = E.cmp_out(a, b)
                        if res is None or q is True:
                            res = (q, why)
                        if q is True:
                            break
                    else:
                        q, why = res
                    if res is None:
                        continue
                    if res[0] is True:
                        E.ok(lab2, rule)
                    elif res[0] is None:
                        E.und(lab2, res[1], rule)
                    else:
                        E.viol(lab2, E.where(c, "volatility"), res[1], rule)
                        continue
                    if cnt:
                        continue
                    for op in opts_of(got.v):
                        if ok:
                            for k, s in (("xtol", tol), ("maxiter", mi)):
                                l3 = "%s passes %s to the solver" % (lab2, "tol" if k == "xtol" else k)
                                if k in op and E.same(op[k], I.encode(s))[0]:
                                    E.ok(l3, "solver options")
                                else:
                                    E.viol(l3, E.where(c, "volatility"), "solver receives %s" % short(op.get(k)), "solver options")
                        br = op.get("bracket")
                        if isinstance(br, tuple):
                            cs = [z.const() for z in nf._args_rfs(br) if z.const() is not None]
                            if len(cs) == 2:
                                l3 = "%s searches the volatilities up to 1000%%" % lab2
                                if min(cs) <= 0.001 and max(cs) >= 10:
                                    E.ok(l3, "solver bracket")
                                else:
                                    E.viol(l3, E.where(c, "volatility"), "bracket %s" % [float(z) for z in cs], "solver bracket")
    E.parallel(cases, one)
