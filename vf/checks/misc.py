"""C29-: whole-number inputs, the fitted model, effects, plots."""
import numpy as np
from .. import nf, val
from ..val import AbsRaise, num
from fractions import Fraction as Fr
from ..interp import BoundV, StrV, OpqV, Ref, ArrV, FuncV, PyFn
from ..env import *
from ..env import variants, describe, arr_params
from .sim import mc_classes, dict_item, garch_params, garch_case, llh_stub


# ------------------------------------------------------------------ C29
def wsym(name, pos=True):
    return nf.sym("w_" + name, pos=pos, integer=True)


def whole_kw(E, c, kw, arrays=0):
    """the same arguments with every price, rate, ... a whole number (a vector of them when arrays > 0)"""
    out = {}
    for k, v in kw.items():
        if isinstance(v, RF) and nf.syms_of(v):
            if arrays:
                out[k] = E.I.arr_from([wsym("%s_%d" % (k, i), k not in REAL) for i in range(arrays)], (arrays,))
            else:
                out[k] = wsym(k, k not in REAL)
        else:
            out[k] = v
    return out


def machine(E, v):
    """the same argument as machine integers"""
    I = E.I
    if isinstance(v, ArrV):
        return I.arr_from([I.mark_int(x) for x in I.nd(v).reshape(-1)], v.shape)
    if isinstance(v, RF) and nf.syms_of(v):
        return I.mark_int(v)
    return v


def machine_kw(E, kw):
    return {k: machine(E, v) for k, v in kw.items()}


def c29(E):
    rule = "whole-number arguments given as machine integers give the answers they give as decimals"
    I = E.I
    f_sim, f_fit = E.func("hngarch_sim"), E.func("hngarch_fit")

    def both(name, run, where):
        """run(wrap) must not depend on whether wrap keeps numbers or makes them machine integers"""
        def ask(wrap, on):
            E.fresh()
            I.int_ids, I.int_stores = ({0: None} if on else {}), []
            try:
                return E.outcome(lambda: run(wrap))
            finally:
                I.int_ids = {}
        a = ask(lambda v: v, False)
        b = ask(lambda v: machine(E, v), True)
        st = list(I.int_stores)
        if st:
            where = "%s in %s" % st[0]
        E.check_eq(name, b, a, where, rule)

    def options(item):
        c, lab, mk, arrays = item
        if arrays and c.name not in GBS_FAMILY + ["MiltersenSchwartzOption"]:
            return
        E.fresh()
        pw = wsym("price")
        qs = E.queries(c, price=pw)
        for ql, m, k2 in qs:
            if m in ("__repr__", "__str__", "summary", "get_params"):
                continue
            if arrays and (m == "volatility" or k2.get("method") == "fdm"):
                continue

            def run(wrap):
                kw = whole_kw(E, c, mk(""), arrays)
                o = E.make(c, {k: wrap(v) for k, v in kw.items()})
                return E.ask(o, m, **{k: wrap(v) if isinstance(v, RF) else v for k, v in k2.items()})
            both("%s.%s%s" % (describe(c, lab), ql, " of integer arrays" if arrays else ""), run, E.where(c, m))
    todo = []
    for c in E.option_classes():
        for lab, mk in variants(E, c, False):
            todo.append((c, lab, mk, 0))
            todo.append((c, lab, mk, 2))
    E.parallel(todo, options)

    g = dict(lamb=wsym("lamb", False), omega=nf.sym("omega"), alpha=nf.sym("alpha"), beta=nf.sym("beta"), gamma=wsym("gamma", False), rf=nf.sym("rf", pos=False))

    def arr(nm, n, shape=None):
        return I.arr_from([wsym("%s%d" % (nm, i), False) for i in range(n)], shape or (n,))
    for n, warm in ((1, 0), (3, 0), (2, 2)) + (((5, 3),) if E.thorough else ()):
        for which in ("both", "warm") if warm else ("both",):
            def run(wrap):
                k = dict(g, n=num(n), n_start=num(warm), inno=wrap(arr("z", n)) if which == "both" else arr("z", n))
                if warm:
                    k["inno_start"] = wrap(arr("v", warm))
                return I.call(f_sim, [], k)
            both("hngarch_sim with %s integer innovations, %d values after %d" % ("only" if which == "both" else "warm-up", n, warm), run, f_sim.where())
    for sym in (True, False):
        for key in ("value", "h", "z"):
            def run(wrap):
                g2, rf, _ = garch_params(E, sym)
                x0 = [g2["lamb"]] + [E.spec("logit", g2[p]) for p in ("omega", "alpha", "beta")] + [g2["gamma"]]

                def hook(f, x0a, extra, kw):
                    return I.new("ext", {"x": I.arr_from(x0, (5,)), "fun": nf.sym("minval", pos=False)}, "OptimizeResult")
                I.ext.minimize_hook = hook
                try:
                    return dict_item(E, I.call(f_fit, [], dict(g2, rf=rf, x=wrap(arr("x", 2)), symmetric=sym, trace=False)), key)
                finally:
                    I.ext.minimize_hook = None
            both("hngarch_fit %s of an integer series, %s" % (key, "symmetric" if sym else "asymmetric"), run, f_fit.where())

    inn, path, pays, mc = mc_classes(E)
    cases = [(p, side, anti, std) for p in pays for side in ("call", "put") for anti in (False, True) for std in (False, True)]

    def sim(item):
        p, side, anti, std = item

        def run(wrap):
            kw = dict(mc_loops=num(2), path_length=num(2), mc_paths=num(2), Innovation=inn, Path=path, Payoff=p, eps=wrap(arr("e", 4, (2, 2))),
                      S=wrap(wsym("S")), K=wrap(wsym("K")), t=wrap(wsym("t")), r=wrap(wsym("r", False)), b=wrap(wsym("b", False)), sigma=wrap(wsym("sigma")))
            if anti:
                kw["antithetic"] = True
            if std:
                kw["standardization"] = True
            return E.ask(E.make(mc, kw), side)
        both("MonteCarloOption %s %s%s%s of preset integer innovations" % (p.name, side, " antithetic" if anti else "", " standardized" if std else ""), run, E.where(mc, side))
    E.parallel(cases, sim)


# ------------------------------------------------------------------ C30
def c30(E):
    I = E.I
    fit = E.func("hngarch_fit")
    where = "%s in hngarch_fit" % fit.where()
    logit = lambda v: E.spec("logit", v)

    def stand_in(rec, est, fun):
        def hook(f, x0a, extra, kw):
            rec.update(f=f, x0=x0a, extra=extra, kw=dict(kw), n=rec.get("n", 0) + 1)
            return I.new("ext", {"x": I.arr_from(list(est), (len(est),)), "fun": fun, "success": True,
                                 "message": OpqV(("message",)), "status": num(0), "nit": OpqV(("nit",)), "nfev": OpqV(("nfev",))}, "OptimizeResult")
        return hook

    def run(item):
        sym, n, tr = item
        tag = "%s%s" % ("symmetric" if sym else "asymmetric", ", traced" if tr else "")
        E.fresh()
        g, rf, x0, h, Z, xarr = garch_case(E, n, sym)
        xs = list(I.nd(xarr).reshape(-1))
        est = dict(lamb=nf.sym("l1", pos=False), omega=nf.sym("o1"), alpha=nf.sym("a1"), beta=nf.sym("b1"), gamma=nf.sym("g1", pos=False))
        minval = nf.sym("minval", pos=False)
        rec = {}
        e0 = [est["lamb"], logit(est["omega"]), logit(est["alpha"]), logit(est["beta"]), est["gamma"]]
        st = {}
        I.ext.minimize_hook = stand_in(rec, e0, minval)
        I.hooks.append(llh_stub(E))
        try:
            def go():
                st["r"] = I.call(fit, [], dict(g, rf=rf, x=I.arr_from(xs, (n,)), symmetric=sym, trace=tr))
                return num(0)
            out = E.outcome(go)
        finally:
            I.ext.minimize_hook = None
        if out.kind != "val":
            E.check_eq("hngarch_fit, " + tag, out, num(0), where)
            return
        gm = num(0) if sym else est["gamma"]
        pers = nf.add(est["beta"], nf.mul(est["alpha"], nf.powi(gm, 2)))
        want = {
            "estimate": E.flat(I.arr_from([est["lamb"], est["omega"], est["alpha"], est["beta"], gm], (5,))),
            "persistence": pers,
            "sigma2": nf.div(nf.add(est["omega"], est["alpha"]), nf.sub(num(1), pers)),
            "minimum": nf.add(nf.neg(minval), nf.mul(num(n), nf.sqrt(nf.scale(nf.PI(), 2)))),
            "model": E.flat(I.mkdict([(k, gm if k == "gamma" else v) for k, v in est.items()] + [("rf", rf)])),
        }
        rules = {"estimate": "the reported estimate is the optimiser's answer in the model's own units, gamma zero in the symmetric model",
                 "persistence": "persistence = beta + alpha*gamma^2 of the estimate",
                 "sigma2": "unconditional variance = (omega + alpha)/(1 - persistence) of the estimate",
                 "minimum": "reported log likelihood = minus the minimised value plus n*sqrt(2 pi)",
                 "model": "model = the estimate by name, with the rate passed in"}
        for k, w in want.items():
            E.check_eq("hngarch_fit %s, %s" % (k, tag), E.outcome(lambda: dict_item(E, st["r"], k)), w, where, rules[k])
        E.check_eq("hngarch_fit optimises once, " + tag, E.outcome(lambda: num(rec.get("n", 0))), num(1), where, "one optimisation")

    # declared defaults of the start values
    def start(item):
        lab, given = item
        rule = "start values left out are the documented ones: omega = var(x), alpha = omega/10, beta = 0.1, lamb = -0.5, gamma = 0, rf = 0"
        E.fresh()
        xs = [nf.sym("x%d" % i, pos=False) for i in range(2)]
        rec = {}
        kw = {k: nf.sym("s_" + k, pos=k in ("omega", "alpha", "beta")) for k in given}
        om = kw.get("omega")
        if om is None:
            om = nf.powi(nf.scale(nf.sub(xs[0], xs[1]), Fr(1, 2)), 2)
        al = kw.get("alpha", nf.scale(om, Fr(1, 10)))
        want = [kw.get("lamb", num(Fr(-1, 2))), logit(om), logit(al), logit(kw.get("beta", num(Fr(1, 10)))), kw.get("gamma", num(0))]
        I.ext.minimize_hook = stand_in(rec, [nf.sym("e%d" % i, pos=False) for i in range(5)], nf.sym("minval", pos=False))
        I.hooks.append(llh_stub(E))
        try:
            out = E.outcome(lambda: (I.call(fit, [], dict(kw, x=I.arr_from(xs, (2,)), trace=False)), num(0))[1])
        finally:
            I.ext.minimize_hook = None
        if out.kind != "val":
            E.check_eq("hngarch_fit start values, " + lab, out, num(0), where, rule)
            return
        E.check_eq("hngarch_fit start values, " + lab, E.outcome(lambda: rec["x0"]), E.flat(I.arr_from(want, (5,))), where, rule)

    # options meant for the optimiser
    def options(item):
        rule = "keyword arguments hngarch_fit does not use itself reach the optimiser unchanged"
        E.fresh()
        xs = [nf.sym("x%d" % i, pos=False) for i in range(2)]
        rec = {}
        opts = I.mkdict([("maxiter", num(7))])
        tol = nf.sym("tol")
        I.ext.minimize_hook = stand_in(rec, [nf.sym("e%d" % i, pos=False) for i in range(5)], nf.sym("minval", pos=False))
        I.hooks.append(llh_stub(E))
        try:
            out = E.outcome(lambda: (I.call(fit, [], dict(x=I.arr_from(xs, (2,)), trace=False, tol=tol, options=opts, bounds=OpqV(("bounds",)))), num(0))[1])
        finally:
            I.ext.minimize_hook = None
        if out.kind != "val":
            E.check_eq("hngarch_fit optimiser options", out, num(0), where, rule)
            return
        for k, w in (("tol", tol), ("options", E.flat(opts)), ("bounds", E.flat(OpqV(("bounds",))))):
            E.check_eq("hngarch_fit option %s" % k, E.outcome(lambda: rec["kw"].get(k)), w, where, rule)
    E.parallel([(s, n, t) for s in (True, False) for n in (1, 2) for t in (False, True)], run)
    E.parallel([("nothing given", ()), ("omega given", ("omega",)), ("alpha given", ("alpha",)), ("all given", ("lamb", "omega", "alpha", "beta", "gamma", "rf"))], start)
    E.parallel([0], options)


# ------------------------------------------------------------------ C31
class Drawing:
    """what a recorded sequence of drawing calls shows"""
    ANN = ("annotate", "text")

    def __init__(self, E, calls):
        I = E.I
        self.E = E
        self.edges, self.texts, self.labels, self.figures = set(), [], {}, []
        self.unknown = []
        for name, args, kw, loc in calls:
            if name in ("figure", "subplots"):
                self.figures.append((name, args, kw, loc))
            elif name == "plot":
                if len(args) < 2:
                    raise Undecided("plot call of an unknown form")
                xs, ys = (list(self.vec(a)) for a in args[:2])
                if len(xs) != len(ys):
                    raise AbsRaise("ValueError", "x and y must have the same length")
                pts = list(zip(xs, ys))
                for p, q in zip(pts, pts[1:]):
                    self.edges.add(frozenset((p, q)))
                if len(pts) == 1:
                    self.edges.add(frozenset(pts))
            elif name in self.ANN:
                kw = dict(kw)
                if name == "annotate":
                    text = args[0] if args else kw.pop("text")
                    xy = args[1] if len(args) > 1 else kw.pop("xy")
                    at = args[2] if len(args) > 2 else kw.get("xytext")
                    if kw.get("textcoords", "data") not in ("data", None):
                        raise Undecided("text placed by offsets")
                    at = tuple(I.tonum(v) for v in I.iterate(at if at is not None else xy))
                else:
                    at = tuple(I.tonum(v) for v in args[:2])
                    text = args[2] if len(args) > 2 else kw.get("s")
                self.texts.append((text, at, kw.get("fontsize", kw.get("size")), loc))
            elif name in ("xlabel", "ylabel", "title", "set_xlabel", "set_ylabel", "set_title"):
                self.labels[name.replace("set_", "")] = (args[0] if args else None, kw.get("fontsize", kw.get("size")))
            elif name in ("scatter", "hlines", "vlines", "imshow", "axline", "arrow"):
                self.unknown.append(name)

    def vec(self, a):
        I = self.E.I
        for v in I.iterate(a):
            v = I.tonum(v)
            c = v.const()
            if c is None:
                raise Undecided("a drawn position depends on run-time values")
            yield c


def c31(E):
    I = E.I
    rule = "every node of the tree that prices the option is drawn at (step, net moves) and labelled with its own value"
    sizes = (1, 2, 3, 4, 7) if not E.thorough else tuple(range(1, 13))

    def tri(c):
        return E.cls("TrinomialTreeOption") in c.mro

    def one(item):
        c, n, st, side, deft = item
        zero = deft == "zeros"
        deft = deft is True
        name = "%s(%s) plot of the %s tree, n = %d%s" % (c.name, st, side, n, ", defaults" if deft else ", digits = dx = dy = 0" if zero else "")
        where = E.where(c, "plot")
        t = tri(c)
        m = n
        dx, dy, size, digits = (nf.sym(k, pos=k in ("size", "digits")) for k in ("dx", "dy", "size", "digits"))
        fk = nf.sym("figsize")
        if zero:
            dx = dy = digits = num(0)
        k = {} if deft else dict(dx=dx, dy=dy, size=size, digits=digits, figsize=fk)
        if side == "put":
            k["call"] = False
        if deft:
            f, _ = I.class_attr(c, "plot")
            a = f.node.args.args if isinstance(f, FuncV) else []
            dv = dict(zip([x.arg for x in a][len(a) - len(f.defaults):], f.defaults)) if a else {}
            if not all(isinstance(dv.get(x), RF) for x in ("dx", "dy", "size", "digits")):
                E.und(name, "declared defaults of plot not recognised", rule)
                return
            dx, dy, size, digits = (dv[x] for x in ("dx", "dy", "size", "digits"))
        kw = E.params(c, n=n, otype=st)
        # the tree itself is checked by C28: the drawing is compared with named entries
        asked = []

        def stub(I, f, args, kwargs, node):
            args = list(args)
            if isinstance(f, BoundV):
                f, args = f.func, [f.self_] + args
            if isinstance(f, FuncV) and f.name in ("call", "put") and len(args) < 3:
                tr = kwargs.get("tree", args[1] if len(args) > 1 else False)
                if tr is True:
                    asked.append(f.name)
                    sh = (2 * n + 1 if t else n + 1, n + 1)
                    return (I.arr_from([nf.sym("%s_%d_%d" % (f.name, i, j)) for i in range(sh[0]) for j in range(sh[1])], sh),)
            return None
        T = None
        for real in (False, True):
            E.fresh()
            o = E.make(c, kw)
            if not real:
                I.hooks.append(stub)
            I.ext.drawn.clear()
            out = E.outcome(lambda: E.ask(o, "plot", **k), flat=False)
            if not real:
                I.hooks.remove(stub)
            if real or asked:
                if real:
                    T = I.nd(E.ask(E.make(c, kw), side, tree=True))
                else:
                    sh = (2 * n + 1 if t else n + 1, n + 1)
                    T = np.empty(sh, dtype=object)
                    for i in range(sh[0]):
                        for j in range(sh[1]):
                            T[i, j] = nf.sym("%s_%d_%d" % (side, i, j))
                break
        if out.kind != "val":
            E.viol(name, out.where or where, repr(out), rule) if out.kind == "exc" else E.und(name, out.msg, rule)
            return
        d = E.outcome(lambda: Drawing(E, list(I.ext.drawn)), flat=False)
        if d.kind != "val":
            E.viol(name, d.where or where, repr(d), rule) if d.kind == "exc" else E.und(name, d.msg, rule)
            return
        D = d.raw
        if D.unknown:
            E.und(name, "drawn with %s" % D.unknown[0], rule)
            return
        nodes = [(i, y) for i in range(m + 1) for y in (range(-i, i + 1) if t else range(-i, i + 1, 2))]
        row = lambda i, y: (m - y) if t else (i - y) // 2
        # labels
        left = list(D.texts)
        for i, y in nodes:
            want = I.ext.builtin("round", [T[row(i, y), i], digits], {}, None)
            pos = (nf.add(num(i), dx), nf.add(num(y), dy))
            here = [x for x in left if len(x[1]) == 2 and all(nf.eq(a, b) for a, b in zip(x[1], pos))]
            lab = "%s: label of node (step %d, %+d)" % (name, i, y)
            if not here:
                E.viol(lab, where, "no label at the node's place", rule)
                continue
            for x in here:
                left.remove(x)
                got = x[0]
                if isinstance(got, (str, StrV)):
                    r, why = (True, None) if E.same(E.flat(got), E.flat(I.fmt(want)))[0] else (None, "text %s" % short(got))
                else:
                    r, why = E.same(E.flat(got), E.flat(want), True)
                if r is True:
                    r, why = (True, None) if x[2] is not None and E.same(E.flat(x[2]), E.flat(size))[0] else (False, "font size %s instead of %s" % (short(x[2]), short(size)))
                if r is not True:
                    break
            E.ok(lab, rule) if r is True else E.und(lab, why, rule) if r is None else E.viol(lab, "%s (label drawn at %s)" % (where, x[3]), why, rule)
        if left:
            E.viol(name + ": nothing else is labelled", left[0][3] or where, "label %s at %s" % (short(left[0][0]), short(left[0][1])), rule)
        else:
            E.ok(name + ": nothing else is labelled", rule)
        # branches
        want = set()
        for i, y in nodes:
            if i < m:
                for s in ((-1, 0, 1) if t else (-1, 1)):
                    want.add(frozenset(((Fr(i), Fr(y)), (Fr(i + 1), Fr(y + s)))))
        miss, extra = want - D.edges, D.edges - want
        if miss:
            E.viol(name + ": branches", where, "no line between nodes %s" % (sorted(tuple(map(int, p)) for p in next(iter(miss))),), "every branch of the tree is drawn, and nothing else")
        elif extra:
            E.viol(name + ": branches", where, "a line between %s, which is no branch" % (sorted(tuple(map(str, p)) for p in next(iter(extra))),), "every branch of the tree is drawn, and nothing else")
        else:
            E.ok(name + ": branches", "every branch of the tree is drawn, and nothing else")
        # titles, figure
        r2 = "titles are drawn and figure options reach the figure that is returned"
        for k2 in ("xlabel", "ylabel", "title"):
            if k2 not in D.labels:
                E.viol(name + ": " + k2, where, "missing", r2)
            else:
                E.ok(name + ": " + k2, r2)
        if len(D.figures) != 1:
            E.viol(name + ": figure", where, "%d figures are created" % len(D.figures), r2)
        else:
            got = D.figures[0][2].get("figsize")
            if not deft and (got is None or not E.same(E.flat(got), E.flat(fk))[0]):
                E.viol(name + ": figure", D.figures[0][3], "figsize does not reach the figure", r2)
            elif not (isinstance(out.raw, OpqV) and out.raw.key == ("ext", "figure")):
                E.viol(name + ": figure", where, "the figure is not returned", r2)
            else:
                E.ok(name + ": figure", r2)
        # plotting changes nothing
        if n <= 2:
            E.check_eq(name + ": the option answers as before", E.outcome(lambda: E.ask(o, side)), E.outcome(lambda: E.ask(E.make(c, kw), side)), where,
                       "plotting leaves the option as it was")
    def asks(c):
        """does plot take the tree from call(tree=True)?"""
        seen = []

        def look(I, f, args, kwargs, node):
            g = f.func if isinstance(f, BoundV) else f
            if isinstance(g, FuncV) and g.name in ("call", "put"):
                seen.append(g.name)
            return None
        E.fresh()
        I.hooks.append(look)
        E.outcome(lambda: E.ask(E.make(c, E.params(c, n=1)), "plot"), flat=False)
        I.hooks.remove(look)
        return bool(seen)
    todo = []
    for c in [E.cls(n) for n in ("CRRBinomialTreeOption", "JRBinomialTreeOption", "TIANBinomialTreeOption", "TrinomialTreeOption")]:
        for n in sizes if asks(c) else (1, 2):
            for st in ("european", "american"):
                for side in ("call", "put"):
                    todo.append((c, n, st, side, n == 2))
                    if n == 2:
                        todo.append((c, n, st, side, "zeros"))
    E.parallel(todo, one)


# ------------------------------------------------------------------ C32
ERRSET = {"divide": "warn", "over": "warn", "under": "ignore", "invalid": "warn"}


def c32(E):
    I = E.I
    rule = "nothing is printed, drawn, written or changed outside the objects the caller handed in"

    def left():
        out = list(I.ext.effects)
        if I.ext.errset != ERRSET:
            out.append(("numpy's floating-point error handling is left changed", "", ""))
        return out

    def clear():
        I.ext.effects.clear()
        I.ext.errset = dict(ERRSET)
        I.ext.drawn.clear()
        I.printed.clear()

    eff = left()
    if eff or I.printed:
        w = eff[0] if eff else ("prints", I.printed[0][2], "")
        E.viol("importing the package", "%s %s" % (w[1], "in " + w[2] if w[2] else ""), w[0], rule)
    else:
        E.ok("importing the package", rule)

    def watch(name, run, where, talk=False, draw=False, soft=False):
        """run() must have no outside effect; talk: may print; draw: may draw a figure; soft: only effects count"""
        E.fresh()
        clear()
        out = E.outcome(run, flat=False)
        eff = [e for e in left() if not (draw and e[0] == "figure")]
        if eff:
            E.viol(name, "%s in %s" % (eff[0][1], eff[0][2]) if eff[0][2] else where, "a figure is drawn" if eff[0][0] == "figure" else eff[0][0], rule)
        elif I.printed and not talk:
            E.viol(name, I.printed[0][2], "prints %s" % short(I.printed[0][0]), rule)
        elif out.kind == "und":
            if not soft:
                E.und(name, out.msg, rule)
        else:
            E.ok(name, rule)
        clear()

    def options(item):
        c, lab, mk, ql, m, kw = item
        nm = describe(c, lab)
        if ql is not None:
            watch("%s.%s" % (nm, ql), lambda: E.ask(E.make(c, mk("")), m, **kw), E.where(c, m))
            if lab != "arrays" and m not in ("__repr__", "__str__", "get_params"):
                # any number at all: zero, negative, out of range
                wild = {p: nf.sym("any_" + p, pos=False) if isinstance(v, RF) and v.const() is None else v for p, v in mk("").items()}
                watch("%s.%s at any numbers" % (nm, ql), lambda: E.ask(E.make(c, wild), m, **kw), E.where(c, m), soft=True)
        elif m == "summary":
            watch("%s.summary(printer=True)" % nm, lambda: E.ask(E.make(c, mk("")), "summary", printer=True), E.where(c, "summary"), talk=True)
        elif m == "set_param":
            names, _ = E.ctor_params(c)
            p = next((x for x in names if x in ("K", "t", "r")), None)
            if p is not None:
                watch("%s.set_param(%s)" % (nm, p), lambda: E.ask(E.make(c, mk("")), m, p, nf.sym("new_" + p)), E.where(c, m))
        else:
            watch("%s.%s()" % (nm, m), lambda: E.ask(E.make(c, mk("")), m), E.where(c, m), draw=m == "plot")
    todo = []
    for c in E.option_classes():
        for lab, mk in variants(E, c):
            qs = E.queries(c)
            todo += [(c, lab, mk) + q for q in qs]
            if any(m == "summary" for _, m, _ in qs):
                todo.append((c, lab, mk, None, "summary", {}))
            for m in ("copy", "set_param", "plot"):
                f, _ = I.class_attr(c, m)
                if isinstance(f, FuncV):
                    todo.append((c, lab, mk, None, m, {}))
    E.parallel(sorted(todo, key=lambda x: "BAW" not in x[0].name), options)

    inn, path, pays, mc = mc_classes(E)
    for p in pays:
        for side in ("call", "put"):
            for tr in (False, True):
                def run():
                    kw = dict(mc_loops=num(2), path_length=num(2), mc_paths=num(2), Innovation=inn, Path=path, Payoff=p, trace=tr,
                              **{k: E.sym(k) for k in ("S", "K", "t", "r", "b", "sigma")})
                    return E.ask(E.make(mc, kw), side)
                watch("MonteCarloOption %s %s%s" % (p.name, side, " traced" if tr else ""), run, E.where(mc, side), talk=tr)
    f_sim, f_fit = E.func("hngarch_sim"), E.func("hngarch_fit")
    g = dict(lamb=E.sym("lamb"), omega=nf.sym("omega"), alpha=nf.sym("alpha"), beta=nf.sym("beta"), gamma=E.sym("gamma"), rf=nf.sym("rf", pos=False))
    for given in (True, False):
        k = dict(g, n=num(3), n_start=num(2))
        watch("hngarch_sim %s" % ("with innovations given" if given else "with its own innovations"),
              lambda: I.call(f_sim, [], dict(k, inno=I.arr_from([nf.sym("z%d" % i, pos=False) for i in range(3)], (3,))) if given else k), f_sim.where())
    for sym in (True, False):
        for tr in (True, False):
            def run():
                g2, rf, x0, _, _, xarr = garch_case(E, 2, sym)
                est = I.arr_from(x0, (5,))

                def hook(f, x0a, extra, kw):
                    # the optimiser tries some parameters
                    I.call(f, [est] + list(extra), {})
                    return I.new("ext", {"x": est, "fun": nf.sym("minval", pos=False), "success": True, "message": OpqV(("message",)),
                                         "status": num(0), "nit": OpqV(("nit",)), "nfev": OpqV(("nfev",))}, "OptimizeResult")
                I.ext.minimize_hook = hook
                try:
                    return I.call(f_fit, [], dict(g2, rf=rf, x=xarr, symmetric=sym, trace=tr))
                finally:
                    I.ext.minimize_hook = None
            watch("hngarch_fit %s%s" % ("symmetric" if sym else "asymmetric", ", traced" if tr else ""), run, f_fit.where(), talk=tr)


# ------------------------------------------------------------------ C33
ZERO = ("r", "b", "b1", "b2", "rho", "rho_12", "rho_13", "rho_23", "D", "lamb", "gamma", "rf", "rhoSP", "rhoSE", "rhoPE", "rho12", "rho13", "rho23", "rhoSF", "rhoEF")


def mentions(v, pred):
    if isinstance(v, RF):
        return any(pred(n) for n in nf.syms_of(v))
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "TriggerPrice":
            return False                # documented as not-a-number where there is no trigger
        return any(mentions(z, pred) for z in v)
    if isinstance(v, Gam):
        x = val.xs(v.xid)
        return isinstance(x, RF) and mentions(x, pred) or mentions(v.t, pred) or mentions(v.f, pred)
    return False


EQUAL = (("K", "S"), ("FT", "K"), ("K", "S1"), ("S2", "S1"), ("sigma2", "sigma1"), ("b", "r"), ("b1", "r"), ("b2", "b1"), ("K2", "K"), ("Q2", "Q1"), ("T", "t"),
         ("sigmaE", "sigmaS"), ("sigmaF", "sigmaE"), ("KappaF", "KappaE"), ("omega", "alpha"))


def special(E, c, kw):
    """[(label, overrides)]: ordinary arguments at which a formula may degenerate"""
    out = []
    zs = [p for p in ZERO if isinstance(kw.get(p), RF)]
    for p in zs:
        out.append(("%s = 0" % p, {p: num(0)}))
    for i, p in enumerate(zs):
        for q in zs[i + 1:]:
            out.append(("%s = %s = 0" % (p, q), {p: num(0), q: num(0)}))
    if len(zs) > 2:
        out.append(("%s = 0" % " = ".join(zs), {p: num(0) for p in zs}))
    for p, q in EQUAL:
        if isinstance(kw.get(p), RF) and isinstance(kw.get(q), RF) and not (p == "T"):
            out.append(("%s = %s" % (p, q), {p: kw[q]}))
    for p in zs:
        if p.startswith("rho"):
            out.append(("%s = 1" % p, {p: num(1)}))
            out.append(("%s = -1" % p, {p: num(-1)}))
    return out


def c33(E):
    I = E.I
    rule = "the answer exists at ordinary special arguments (zero rates, equal arguments, perfect correlation) as it does next to them"

    def one(item):
        c, lab, mk, (what, over) = item
        pw = nf.sym("price")
        for ql, m, k2 in E.queries(c, price=pw):
            if m in ("__repr__", "__str__", "summary", "get_params", "volatility", "greeks"):
                continue
            if m == "lamb" and not what.endswith("0"):
                continue                # the price it divides by may be zero there
            name = "%s with %s: %s" % (describe(c, lab), what, ql)
            where = E.where(c, m)

            def ask(ov):
                E.fresh()
                kw = dict(mk(""), **ov)
                return E.outcome(lambda: E.ask(E.make(c, kw), m, **k2))
            at0 = ask(over)
            nan = lambda o: mentions(o.v, lambda n: n == "nan")
            if at0.kind == "und":
                E.und(name, at0.msg, rule)
            elif at0.kind == "val" and not nan(at0):
                if at0.guards:
                    # an arm of the computation ends in an error: does it do so next to the special point, too?
                    there = {(g[2].exc, g[2].where) for g in ask({}).guards}
                    bad = [g for g in at0.guards if (g[2].exc, g[2].where) not in there]
                    if bad:
                        E.viol(name, bad[0][2].where or where, "raises %s when %s is %s, although the answer exists next to it" % (bad[0][2].exc, short(bad[0][0], 120), bad[0][1]), rule)
                        continue
                E.ok(name, rule)
            else:
                near = ask({})
                if near.kind == at0.kind and (near.kind == "val" or near.exc == at0.exc):
                    E.ok(name, rule)
                elif near.kind == "val":
                    E.viol(name, at0.where or where, ("%r" % at0 if at0.kind == "exc" else "not a number") + " although the answer exists next to it", rule)
                else:
                    E.und(name, near.msg or "no answer next to it", rule)
    todo = []
    for c in E.option_classes():
        for lab, mk in variants(E, c, False):
            for sp in special(E, c, mk("")):
                todo.append((c, lab, mk, sp))
    E.parallel(todo, one)
