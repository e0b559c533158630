"""C21-C23, C25: Monte Carlo and GARCH simulation."""
from .. import nf, val
from ..val import AbsRaise, num
from fractions import Fraction as Fr
from ..interp import StrV, OpqV, Ref, ArrV, FuncV, PyFn
from ..env import *
from ..env import variants, describe, arr_params


def mc_classes(E):
    return (E.cls("NormalSobolInnovations"), E.cls("WienerPath"),
            [E.cls("PlainVanillaPayoff"), E.cls("ArithmeticAsianPayoff")], E.cls("MonteCarloOption"))


def garch_params(E, sym=False):
    """symbolic HN-GARCH parameters, written so that the start variance is H0**2 (a change of variables for beta)."""
    g = dict(lamb=E.sym("lamb"), omega=nf.sym("omega"), alpha=nf.sym("alpha"), gamma=E.sym("gamma"))
    rf = nf.sym("rf", pos=False)
    h0 = nf.powi(nf.sym("H0"), 2)
    geff = num(0) if sym else g["gamma"]
    g["beta"] = nf.sub(nf.sub(num(1), nf.mul(g["alpha"], nf.powi(geff, 2))), nf.div(nf.add(g["omega"], g["alpha"]), h0))
    return g, rf, geff


def garch_case(E, n, sym):
    """(params, rf, x0 list, h list, Z list, x array): the series produced by the reference recursion from symbols Z."""
    I = E.I
    g, rf, geff = garch_params(E, sym)
    Z = [nf.sym("z%d" % i, pos=False) for i in range(n)]
    h, x = E.spec("garch_series", g["omega"], g["alpha"], g["beta"], geff, g["lamb"], rf, I.mklist(Z))
    h, x = list(I.rec(h).data), list(I.rec(x).data)
    x0 = [g["lamb"]] + [E.spec("logit", g[p]) for p in ("omega", "alpha", "beta")] + [g["gamma"]]
    return g, rf, x0, h, Z, I.arr_from(x, (n,))


def llh_stub(E):
    """hook that replaces the likelihood by an opaque function of its inputs (it is checked on its own)."""
    I = E.I

    def hook(I, f, args, kw, node):
        if not (isinstance(f, FuncV) and f.name == "_llhHNGarch"):
            return None
        b = I.bind(f, args, kw, node)
        names = ("x0", "symmetric", "rfr", "x")
        if any(n not in b for n in names):
            return None
        key = tuple(I.encode(I.ext.asarray(b[n]) if n in ("x0", "x") else b[n]) for n in names)
        v = nf.fn("llh", *key)
        if I.truth(b.get("ret_obj", False)) is True:
            n = I.ext.shape(b["x"])[0]
            mk = lambda t: I.arr_from([nf.fn(t, num(i), *key) for i in range(n)], (n,))
            return (I.instantiate(E.cls("ParamFit"), [v, mk("filt_z"), mk("filt_h")], {}),)
        return (v,)
    return hook


# ------------------------------------------------------------------ C21
def arr_sym(E, name, rows, cols):
    return E.I.arr_from([nf.sym("%s%d%d" % (name, i, j), pos=False) for i in range(rows) for j in range(cols)], (rows, cols))


def mc_builtins(E):
    """DRAW: a matrix of fresh symbols; PAY: an opaque payoff per path."""
    I = E.I
    draws = []

    def draw(I, a, k, n):
        m = arr_sym(E, "draw%d_" % (len(draws) + 1), I.pyint(a[0]), I.pyint(a[1]))
        draws.append(m)
        return m

    def pay(I, a, k, n):
        eps = I.ext.asarray(a[1])
        key = tuple(I.encode(I.tonum(x)) for x in I.iterate(a[2])) + tuple(I.encode(I.tonum(x)) for x in I.iterate(a[3]))
        rows = I.nd(eps)
        enc = tuple(I.encode(x) for x in rows.reshape(-1))
        return I.arr_from([nf.fn("payoff", I.encode(a[0]), num(i), str(rows.shape), enc, key) for i in range(rows.shape[0])], (rows.shape[0],))
    I.builtins_extra["DRAW"] = PyFn("DRAW", draw)
    I.builtins_extra["PAY"] = PyFn("PAY", pay)
    return draws


def c21(E):
    E.I.ext.taint_len = True
    rule = "result[i] = mean payoff of loop i's own innovations"
    I = E.I
    inn, path, pays, mc = mc_classes(E)
    todo = [(a, s, t, call) for a in (False, True) for s in (False, True) for t in (False, True) for call in (True, False)]

    def one(item):
        anti, std, trace, call = item
        side = "call" if call else "put"
        draws = mc_builtins(E)
        cases = [(2, 3, 2), (3, 1, 1), (1, 2, 3)]

        def run():
            for loops, length, paths in cases:
                if std and paths * length < 2:
                    continue
                E.fresh()
                del draws[:]
                I.printed.clear()
                g = dict(S=nf.sym("S"), K=nf.sym("K"), t=nf.sym("t"), r=E.sym("r"), b=E.sym("b"), sigma=nf.sym("sigma"))
                kw = dict(g, mc_loops=E.tconst(loops), path_length=E.tconst(length), mc_paths=E.tconst(paths), Innovation=E.specfn("SpecInnovation"),
                          Path=E.specfn("SpecPath"), Payoff=E.specfn("SpecPayoff"))
                if anti:
                    kw["antithetic"] = True
                if std:
                    kw["standardization"] = True
                if trace:
                    kw["trace"] = True
                name = "MonteCarloOption%s %s, %d loops, %d paths of length %d" % (
                    "".join(" " + w for w, f in (("antithetic", anti), ("standardized", std), ("traced", trace)) if f), side, loops, paths, length)
                got = E.outcome(lambda: E.ask(E.make(mc, kw), side), flat=False)
                printed = list(I.printed)
                where = E.where(mc, side)
                if got.kind != "val":
                    E.check_eq(name, got, num(0), where, rule)
                    continue
                wants = [E.spec("mc_value", num(1 if call else -1), d, anti, std, g["sigma"], nf.div(g["t"], num(length)), g["b"], g["S"], g["K"], g["t"], g["r"])
                         for d in draws]
                for o in finite_leaves(got.raw):
                    a = I.ext.asarray(o)
                    if a.shape != (loops,):
                        E.viol(name, where, "%d results expected, got shape %s" % (loops, a.shape), rule)
                        continue
                    vals = [I.tonum(scal1(E, x)) for x in I.nd(a).reshape(-1)]
                    used = []
                    for i, v in enumerate(vals):
                        hit = [k for k, w in enumerate(wants) if k not in used and E.same(v, w)[0]]
                        if hit:
                            used.append(hit[0])
                            E.ok("%s: loop %d" % (name, i), rule)
                        else:
                            best = wants[i] if i < len(wants) else num(0)
                            E.viol("%s: loop %d" % (name, i), where, "%s is not the mean payoff of a sample of its own; with sample %d it would be %s" % (
                                short(v), i + 1, short(best)), rule)
                    if trace:
                        check_trace(E, name, vals, printed, mc)
                    elif printed:
                        E.viol(name + ": silent", where, "prints although trace is off", "trace only prints")
        E.explore(run)
    E.parallel(todo, one)


def scal1(E, v):
    if isinstance(v, ArrV) and v.idx.size == 1:
        return E.I.nd(v).reshape(-1)[0]
    return v


def finite_leaves(v):
    """the answers of the runs in which no payoff is infinite."""
    out = [z for z in val.leaves(v) if isinstance(z, (ArrV, Ref, RF)) and not isinstance(z, tuple)]
    return out


def numbers_in(E, s, out):
    """encoded values formatted into a text, in order."""
    if isinstance(s, Gam):
        numbers_in(E, s.t, out)
        numbers_in(E, s.f, out)
    elif isinstance(s, StrV):
        for p in s.parts:
            if not isinstance(p, str):
                out.append(p)
    return out


def check_trace(E, name, vals, printed, mc):
    rule = "trace prints each loop's result and the mean of loops 0..i"
    I = E.I
    shown = []
    for text, facts, loc in printed:
        numbers_in(E, text, shown)
    where = E.where(mc, "_print_trace") if isinstance(I.class_attr(mc, "_print_trace")[0], FuncV) else E.where(mc, "call")
    pos = 0
    for i, v in enumerate(vals):
        s = num(0)
        for x in vals[:i + 1]:
            s = I.binop("Add", s, x)
        m = I.binop("Div", s, num(i + 1))
        for what, w in (("result", v), ("running mean", m)):
            hit = [k for k in range(len(shown)) if shows(E, shown[k], w)]
            if hit:
                E.ok("%s: trace %s of loop %d" % (name, what, i), rule)
            elif not shown:
                E.viol("%s: trace %s of loop %d" % (name, what, i), where, "nothing is printed", rule)
            else:
                E.viol("%s: trace %s of loop %d" % (name, what, i), where, "%s is not among the printed values" % short(w), rule)


def shows(E, part, w):
    """does a formatted value present w (possibly rounded or formatted)?"""
    def has(x):
        if isinstance(x, RF):
            return E.same(x, w)[0] or any(a.kind == "fn" and a.data[0] == "round" and has(a.data[1][0] if isinstance(a.data[1], tuple) else a.data[1])
                                          for a in (nf.ATOMS[k] for k in nf.direct_atoms(x)))
        if isinstance(x, tuple):
            return any(has(z) for z in x)
        return False
    return has(part)


# ------------------------------------------------------------------ C22
def c22(E):
    E.I.ext.taint_len = True
    I = E.I
    inn, path, pays, mc = mc_classes(E)
    rule = "path increments and payoffs equal their formulas"
    g = dict(S=nf.sym("S"), K=nf.sym("K"), t=nf.sym("t"), r=E.sym("r"), b=E.sym("b"), sigma=nf.sym("sigma"))
    def run():
      for rows, cols in [(2, 3), (1, 2), (3, 1)] + ([(4, 5)] if E.thorough else []):
        E.fresh()
        eps = arr_sym(E, "eps", rows, cols)
        dt = nf.sym("dt")
        want = E.spec("wiener", eps, g["sigma"], dt, g["b"])
        mat = lambda v: I.arr_from([x for r in I.rec(v).data for x in I.rec(r).data], (rows, cols))
        got = E.outcome(lambda: E.ask(E.make(path, dict(epsilon=eps, sigma=g["sigma"], dt=dt, b=g["b"])), "generate_path"))
        E.check_eq("WienerPath %dx%d" % (rows, cols), got, E.flat(mat(want)), E.where(path, "generate_path"), rule)
        got = E.outcome(lambda: E.ask(E.make(path, dict(epsilon=eps, sigma=g["sigma"], dt=dt, b=num(0))), "generate_path"))
        E.check_eq("WienerPath %dx%d, b=0" % (rows, cols), got, E.flat(mat(E.spec("wiener", eps, g["sigma"], dt, num(0)))), E.where(path, "generate_path"), rule)
        for pay in pays:
            for side in ("call", "put"):
                for kind in ("wiener", "any path"):
                    E.fresh()
                    eps = arr_sym(E, "eps", rows, cols)

                    def mk():
                        p = E.make(path, dict(epsilon=eps, sigma=g["sigma"], dt=dt, b=g["b"])) if kind == "wiener" else \
                            I.call(E.specfn("SpecPath"), [eps, g["sigma"], dt, g["b"]], {})
                        return E.ask(E.make(pay, dict(g, path=p)), side)
                    got = E.outcome(mk)
                    inc = E.spec("wiener", eps, g["sigma"], dt, g["b"]) if kind == "wiener" else eps
                    w = E.spec("mc_payoff", pay.name == "ArithmeticAsianPayoff", num(1 if side == "call" else -1), inc, g["S"], g["K"], g["t"], g["r"])
                    w = I.arr_from(list(I.rec(w).data), (rows,))
                    E.check_eq("%s.%s on %s, %dx%d" % (pay.name, side, kind, rows, cols), got, E.flat(w), E.where(pay, side), rule)
    E.explore(run)
    # the pieces together
    for pay in pays:
        for side in ("call", "put"):
            E.fresh()
            eps = arr_sym(E, "eps", 2, 2)
            kw = dict(g, mc_loops=num(1), path_length=num(2), mc_paths=num(2), Innovation=inn, Path=path, Payoff=pay, eps=eps)
            got = E.outcome(lambda: E.ask(E.make(mc, kw), side), flat=False)
            inc = E.spec("wiener", eps, g["sigma"], nf.div(g["t"], num(2)), g["b"])
            w = I.rec(E.spec("mc_payoff", pay.name == "ArithmeticAsianPayoff", num(1 if side == "call" else -1), inc, g["S"], g["K"], g["t"], g["r"])).data
            w = I.binop("Div", I.binop("Add", w[0], w[1]), num(2))
            name = "MonteCarloOption(%s).%s on preset innovations" % (pay.name, side)
            if got.kind != "val":
                E.check_eq(name, got, w, E.where(mc, side), rule)
                continue
            for o in finite_leaves(got.raw):
                E.check_eq(name, E.outcome(lambda: I.arr_from([scal1(E, x) for x in I.nd(I.ext.asarray(o)).reshape(-1)], (1,))),
                           E.flat(I.arr_from([w], (1,))), E.where(mc, side), rule)


# ------------------------------------------------------------------ C23
def c23(E):
    E.I.ext.taint_len = True
    I = E.I
    inn, path, pays, mc = mc_classes(E)
    where = E.where(inn, "sample_innovation")
    rule = "normal quantiles of Sobol points, drawn afresh until finite"

    def quantile(u):
        c = u.const()
        if c is None:
            return nf.fn("ppf", u)
        if c <= 0:
            return nf.neg(nf.INF())
        if c >= 1:
            return nf.INF()
        return num(c / (1 - c) - (1 - c) / c)

    def setup(bad, rows, cols):
        """sobol points as constants; draw g (by order of the engines) has the listed coordinates at 0 or 1."""
        order = []

        def point(eng, i, j):
            if eng["@scr"] is False:
                # unscrambled sequence: the first point is the origin
                return num(0) if i == 0 else num(Fr(37 * i + 11 * j + 5, 1009))
            k = repr(eng["@seed"])
            if k not in order:
                order.append(k)
            g = order.index(k)
            if g < len(bad) and (i, j) in bad[g]:
                return num(bad[g][(i, j)])
            return num(Fr(101 * g + 37 * i + 11 * j + 5, 1009))
        I.ext.sobol_hook = point
        I.ext.ppf_hook = quantile
        return order

    def want(g, rows, cols, first=0):
        return I.arr_from([quantile(num(Fr(101 * g + 37 * (i + first) + 11 * j + 5, 1009))) for i in range(rows) for j in range(cols)], (rows, cols))

    cases = []
    for rows, cols in ((2, 3), (3, 1), (1, 2)):
        cases.append((rows, cols, [], 0))
        for i in range(rows):
            for j in range(cols):
                for v in (0, 1):
                    cases.append((rows, cols, [{(i, j): v}], 1))
    cases.append((2, 3, [{(0, 1): 1}, {(1, 2): 0}], 2))
    cases.append((2, 3, [{(0, 0): 0, (1, 1): 1}, {(1, 2): 1}, {(0, 2): 0}], 3))
    try:
        def run():
            for rows, cols, bad, g in (cases if not I.force else cases[:1]):
                for method in ("default", "scramble=True"):
                    if method != "default" and bad and not E.thorough:
                        continue
                    E.fresh()
                    setup(bad, rows, cols)
                    k = {} if method == "default" else {"scramble": True}
                    got = E.outcome(lambda: E.ask(E.make(inn, dict(mc_paths=E.tconst(rows), path_length=E.tconst(cols))), "sample_innovation", **k))
                    E.check_eq("%dx%d sample (%s)%s" % (rows, cols, method, "" if not bad else ", infinite quantiles in draw%s %s" % (
                        "s" if len(bad) > 1 else "", "; ".join(str({k: "-inf" if v == 0 else "+inf" for k, v in b.items()}) for b in bad))),
                        got, E.flat(want(g, rows, cols)), where, rule)
        E.explore(run)
        for rows, cols in ((2, 3), (1, 1), (4, 2)):
            E.fresh()
            setup([], rows, cols)
            got = E.outcome(lambda: E.ask(E.make(inn, dict(mc_paths=num(rows), path_length=num(cols))), "sample_innovation", scramble=False))
            E.check_eq("%dx%d unscrambled sample" % (rows, cols), got, E.flat(want(0, rows, cols, 1)), where, rule + "; the unscrambled sequence starts after its origin")
        # consecutive samples are fresh
        E.fresh()
        setup([], 2, 2)

        def two():
            o = E.make(inn, dict(mc_paths=num(2), path_length=num(2)))
            return (E.ask(o, "sample_innovation"), E.ask(o, "sample_innovation"))
        E.check_eq("two samples in a row", E.outcome(two), ("tuple", E.flat(want(0, 2, 2)), E.flat(want(1, 2, 2))), where, "every sample is drawn afresh")
    finally:
        I.ext.sobol_hook = I.ext.ppf_hook = None
    # presets
    rule = "preset innovations are returned unchanged"
    for rows, cols in ((2, 3), (3, 2)):
        for how in ("positional", "keyword"):
            E.fresh()
            eps = arr_sym(E, "eps", rows, cols)
            E_flat = E.flat(eps)

            def mk():
                o = I.call(inn, [num(rows), num(cols), eps], {}) if how == "positional" else E.make(inn, dict(mc_paths=num(rows), path_length=num(cols), eps=eps))
                return o

            def ask():
                o = mk()
                a = E.ask(o, "sample_innovation")
                return (a, E.ask(o, "sample_innovation"))
            setup([{(0, 0): 0}], rows, cols)
            try:
                got = E.outcome(ask)
            finally:
                I.ext.sobol_hook = I.ext.ppf_hook = None
            E.check_eq("preset %dx%d eps (%s)" % (rows, cols, how), got, ("tuple", E_flat, E_flat), where, rule)
    E.fresh()
    eps = arr_sym(E, "eps", 2, 3)
    g = dict(S=nf.sym("S"), K=nf.sym("K"), t=nf.sym("t"), r=E.sym("r"), b=E.sym("b"), sigma=nf.sym("sigma"))
    mc_builtins(E)
    kw = dict(g, mc_loops=num(2), path_length=num(3), mc_paths=num(2), Innovation=inn, Path=E.specfn("SpecPath"), Payoff=E.specfn("SpecPayoff"), eps=eps)
    setup([{(0, 0): 0}], 2, 3)
    try:
        got = E.outcome(lambda: E.ask(E.make(mc, kw), "call"), flat=False)
    finally:
        I.ext.sobol_hook = I.ext.ppf_hook = None
    w = E.spec("mc_value", num(1), eps, False, False, g["sigma"], nf.div(g["t"], num(3)), g["b"], g["S"], g["K"], g["t"], g["r"])
    if got.kind != "val":
        E.check_eq("MonteCarloOption with preset eps", got, w, E.where(mc, "call"), rule)
    else:
        for o in finite_leaves(got.raw):
            E.check_eq("MonteCarloOption with preset eps", E.outcome(lambda: o), E.flat(I.arr_from([w, w], (2,))), E.where(mc, "call"), rule)


# ------------------------------------------------------------------ C25
def seq(E, v):
    return list(E.I.nd(E.I.ext.asarray(v)).reshape(-1))


def pure_draw(v):
    """is v a single random draw?"""
    if not isinstance(v, RF):
        return False
    at = [nf.ATOMS[k] for k in nf.direct_atoms(v)]
    return len(at) == 1 and at[0].kind == "fn" and at[0].data[0] == "rand" and nf.eq(v, nf.rf_atom(at[0]))


def c25(E):
    E.I.ext.taint_len = True
    I = E.I
    sim, fit = E.func("hngarch_sim"), E.func("hngarch_fit")
    wsim, wfit = "%s in hngarch_sim" % sim.where(), "%s in hngarch_fit" % fit.where()
    rule = "simulated series = the recursion driven by the given innovations"
    g = dict(lamb=E.sym("lamb"), omega=nf.sym("omega"), alpha=nf.sym("alpha"), beta=nf.sym("beta"), gamma=E.sym("gamma"), rf=nf.sym("rf", pos=False))

    def run():
        for n in (1, 2, 3) + ((4, 5) if E.thorough and not I.force else ()):
            for warm in (0, 1, 2):
                for aslist in (False,):
                    E.fresh()
                    Z = [nf.sym("z%d" % i, pos=False) for i in range(n)]
                    W = [nf.sym("w%d" % i, pos=False) for i in range(warm)]
                    k = dict(g, n=E.tconst(n), n_start=E.tconst(warm) if warm else num(0), inno=I.arr_from(Z, (n,)))
                    if warm:
                        k["inno_start"] = I.arr_from(W, (warm,))
                    _, x = E.spec("garch_series", g["omega"], g["alpha"], g["beta"], g["gamma"], g["lamb"], g["rf"], I.mklist(W + Z))
                    want = list(I.rec(x).data)[warm:]
                    got = E.outcome(lambda: I.call(sim, [], k))
                    E.check_eq("hngarch_sim, %d values after %d warm-up draws" % (n, warm), got, E.flat(I.arr_from(want, (n,))), wsim, rule)
    E.explore(run)
    # special parameter values and declared defaults
    for lab, over in (("gamma=0", dict(gamma=num(0))), ("rf=0", dict(rf=num(0))), ("lamb=0", dict(lamb=num(0))), ("beta=0", dict(beta=num(0))),
                      ("defaults", None)):
        E.fresh()
        Z = [nf.sym("z%d" % i, pos=False) for i in range(3)]
        p = dict(g, **over) if over else dict(omega=g["omega"], alpha=g["alpha"])
        q = dict(p) if over else dict(p, lamb=num(Fr(-1, 2)), beta=num(Fr(1, 10)), gamma=num(0), rf=num(0))
        got = E.outcome(lambda: I.call(sim, [], dict(p, n=num(3), inno=I.arr_from(Z, (3,)))))
        _, x = E.spec("garch_series", q["omega"], q["alpha"], q["beta"], q["gamma"], q["lamb"], q["rf"], I.mklist(Z))
        E.check_eq("hngarch_sim, %s" % lab, got, E.flat(I.arr_from(list(I.rec(x).data), (3,))), wsim, rule)
    # own innovations: fresh standard normal draws go through the same recursion
    rule2 = "without innovations the series is driven by distinct random draws"
    for given, warm in (((), 0), ((), 2), (("inno",), 2), (("inno_start",), 2)):
        E.fresh()
        n = 3
        Z = [nf.sym("z%d" % i, pos=False) for i in range(n)]
        W = [nf.sym("w%d" % i, pos=False) for i in range(warm)]
        k = dict(g, n=num(n), n_start=num(warm))
        if "inno" in given:
            k["inno"] = I.arr_from(Z, (n,))
        if "inno_start" in given:
            k["inno_start"] = I.arr_from(W, (warm,))
        name = "hngarch_sim, %d warm-up draws, %s" % (warm, " and ".join(given) + " given" if given else "no innovations given")
        got = E.outcome(lambda: I.call(sim, [], k), flat=False)
        if got.kind != "val":
            E.check_eq(name, got, num(0), wsim, rule2)
            continue
        xs = [I.tonum(scal1(E, v)) for v in seq(E, got.raw)]
        if len(xs) != n:
            E.viol(name, wsim, "%d values instead of %d" % (len(xs), n), rule2)
            continue
        ok = recover(E, g, xs, warm, Z if "inno" in given else None, W if "inno_start" in given else None)
        if ok is None:
            E.ok(name, rule2)
        elif ok[0] == "und":
            E.und(name, ok[1], rule2)
        else:
            E.viol(name, wsim, ok[1], rule2)

    # estimation: the optimiser is replaced by a stand-in that records the objective and answers with chosen parameters
    rule3 = "likelihood = minus the sum of log(pdf(z)/sqrt(h)) of the innovations filtered by the simulation's recursion"

    def fit_case(item):
        what, sym, n = item
        E.fresh()
        g2, rf, x0, h, Z, xarr = garch_case(E, n, sym)
        xs = seq(E, xarr)
        nll = E.spec("garch_nll", I.mklist(h), I.mklist(Z))
        tag = "%s, series of %d" % ("symmetric" if sym else "asymmetric", n)
        rec = {}

        def setup(est):
            def hook(f, x0a, extra, kw):
                rec["f"], rec["x0"], rec["extra"], rec["kw"] = f, x0a, extra, kw
                return I.new("ext", {"x": I.arr_from(list(est), (len(est),)), "fun": nf.sym("minval", pos=False), "success": True,
                                     "message": OpqV(("message",)), "status": num(0), "nit": OpqV(("nit",)), "nfev": OpqV(("nfev",))}, "OptimizeResult")
            I.ext.minimize_hook = hook
        other = [nf.sym("e%d" % i, pos=False) for i in range(5)]
        try:
            if what == "objective":
                # the start values are those of the series; the optimiser answers with them as well
                setup(x0)
                st = {}

                def go():
                    st["r"] = I.call(fit, [], dict(g2, rf=rf, x=I.arr_from(xs, (n,)), symmetric=sym, trace=False))
                    return dict_item(E, st["r"], "value")
                E.check_eq("hngarch_fit value at the start parameters, " + tag, E.outcome(go), nll, wfit, rule3)
                if "f" not in rec:
                    E.und("hngarch_fit objective, " + tag, "the optimiser call was not recognised", rule3)
                    return
                got = E.outcome(lambda: I.call(rec["f"], [I.arr_from(x0, (5,))] + list(rec["extra"]), {}))
                E.check_eq("hngarch_fit objective, " + tag, got, nll, wfit, rule3)
                E.check_eq("hngarch_fit start values, " + tag, E.outcome(lambda: rec["x0"]), E.flat(I.arr_from(x0, (5,))), wfit,
                           "the optimiser starts from the transformed start values")
                for key, want in (("h", h), ("z", Z)):
                    E.check_eq("hngarch_fit %s at the estimate, %s" % (key, tag), E.outcome(lambda: dict_item(E, st["r"], key)),
                               E.flat(I.arr_from(want, (n,))), wfit, rule3)
            elif what == "estimate":
                setup(x0)
                start = dict(lamb=nf.sym("l0", pos=False), omega=nf.sym("o0"), alpha=nf.sym("a0"), beta=nf.sym("b0"), gamma=nf.sym("g0", pos=False))
                st = {}

                def go():
                    st["r"] = I.call(fit, [], dict(start, rf=rf, x=I.arr_from(xs, (n,)), symmetric=sym, trace=False))
                    return dict_item(E, st["r"], "model")
                out = E.outcome(go)
                gm = num(0) if sym else g2["gamma"]
                want = I.mkdict([("lamb", g2["lamb"]), ("omega", g2["omega"]), ("alpha", g2["alpha"]), ("beta", g2["beta"]), ("gamma", gm), ("rf", rf)])
                E.check_eq("hngarch_fit model at the estimate, " + tag, out, E.flat(want), wfit, "the reported model is the back-transformed estimate")
                if out.kind == "val":
                    for key, want in (("h", h), ("z", Z)):
                        E.check_eq("hngarch_fit %s at another estimate, %s" % (key, tag), E.outcome(lambda: dict_item(E, st["r"], key)),
                                   E.flat(I.arr_from(want, (n,))), wfit, rule3)
            elif what == "gamma":
                # symmetric mode: the value does not depend on gamma
                outs = []
                for gg in (num(0), nf.sym("gother", pos=False)):
                    setup(x0)
                    k = dict(g2, gamma=gg, rf=rf, x=I.arr_from(xs, (n,)), symmetric=True, trace=False)
                    outs.append(E.outcome(lambda: dict_item(E, I.call(fit, [], k), "value")))
                E.check_eq("hngarch_fit value without and with gamma, " + tag, outs[1], outs[0], wfit, "in symmetric mode gamma plays no part")
                if "f" in rec:
                    y0 = x0[:4] + [nf.sym("gother", pos=False)]
                    got = E.outcome(lambda: I.call(rec["f"], [I.arr_from(y0, (5,))] + list(rec["extra"]), {}))
                    E.check_eq("hngarch_fit objective with another gamma, " + tag, got, nll, wfit, "in symmetric mode gamma plays no part")
            elif what == "quiet":
                outs = []
                for tr in (False, True):
                    setup(x0)
                    outs.append(E.outcome(lambda: dict_item(E, I.call(fit, [], dict(g2, rf=rf, x=I.arr_from(xs, (n,)), symmetric=sym, trace=tr)), "value")))
                E.check_eq("hngarch_fit value with trace, " + tag, outs[1], outs[0], wfit, "trace only prints")
        finally:
            I.ext.minimize_hook = None
    ns = (1, 2, 3) if not E.thorough else (1, 2, 3, 4)
    todo = [("objective", s, n) for s in (True, False) for n in ns] + [("estimate", s, 1) for s in (True, False)]
    todo += [("gamma", True, 2), ("quiet", True, 1), ("quiet", False, 1)]
    E.parallel(todo, lambda it: E.explore(lambda: fit_case(it)))


def dict_item(E, d, key):
    for k, v in E.I.rec(d).data.values():
        if k == key:
            return v
    raise AbsRaise("KeyError", key)


def recover(E, g, xs, warm, Z, W):
    """None if the series xs follows the recursion for some distinct draws; ('viol'|'und', why) otherwise."""
    I = E.I
    if warm == 0:
        # invert the recursion step by step
        h = nf.div(nf.add(g["omega"], g["alpha"]), nf.sub(nf.sub(num(1), nf.mul(g["alpha"], nf.powi(g["gamma"], 2))), g["beta"]))
        seen = []
        for i, x in enumerate(xs):
            s = nf.sqrt(h)
            z = nf.div(nf.sub(nf.sub(x, g["rf"]), nf.mul(g["lamb"], h)), s)
            if not pure_draw(z):
                return "viol", "x[%d] = %s is not rf + lamb*h + sqrt(h)*Z for a random draw Z" % (i, short(x))
            if any(nf.eq(z, y) for y in seen):
                return "viol", "x[%d] reuses an earlier draw" % i
            seen.append(z)
            h = nf.add(nf.add(g["omega"], nf.mul(g["alpha"], nf.powi(nf.sub(z, nf.mul(g["gamma"], s)), 2))), nf.mul(g["beta"], h))
        return None
    # with warm-up: collect the draws and try them in order
    ids = {}
    for x in xs:
        for a in nf.atoms_of(x):
            if a.kind == "fn" and a.data[0] == "rand":
                ids[a.id] = nf.rf_atom(a)
    draws = [ids[k] for k in sorted(ids)]
    groups = {}
    for d in draws:
        a = nf.ATOMS[next(iter(nf.direct_atoms(d)))]
        groups.setdefault(repr(a.data[1][0]), []).append(d)
    n = len(xs)
    needW = warm if W is None else 0
    needZ = n if Z is None else 0
    cand = [v for v in groups.values()]
    opts = []
    if len(draws) == needW + needZ:
        opts.append((draws[:needW], draws[needW:]))
        opts.append((draws[needZ:], draws[:needZ]))
    for a in cand:
        for b in cand:
            if a is not b and len(a) == needW and len(b) == needZ:
                opts.append((a, b))
    if len(draws) != needW + needZ:
        return "viol", "%d random draws enter the series, %d expected" % (len(draws), needW + needZ)
    for w, z in opts:
        w = W if W is not None else w
        z = Z if Z is not None else z
        _, x = E.spec("garch_series", g["omega"], g["alpha"], g["beta"], g["gamma"], g["lamb"], g["rf"], I.mklist(list(w) + list(z)))
        want = list(I.rec(x).data)[warm:]
        if all(E.same(p, q)[0] for p, q in zip(xs, want)):
            return None
    return "und", "the order of the random draws was not recognised"
