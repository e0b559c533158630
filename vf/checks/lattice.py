"""C17-C20, C28: lattice models."""
from .. import nf, val
from ..val import AbsRaise, num
from ..interp import StrV, OpqV, Ref, ArrV
from ..env import *
from ..env import variants, describe, arr_params

KIND = {"CRRBinomialTreeOption": "CRR", "JRBinomialTreeOption": "JR", "TIANBinomialTreeOption": "TIAN", "TrinomialTreeOption": "TRI"}


def sizes(E, quick, deep):
    return list(range(1, (2 if E.I.force else deep if E.thorough else quick) + 1))


def spec_cols(E, nm, z, kw, n, amer, floored=False):
    I = E.I
    v = E.spec("tree_values", KIND[nm], num(z), *[kw[k] for k in ("S", "K", "t", "r", "b", "sigma")], num(n), amer, floored)
    return [list(I.rec(c).data) for c in I.rec(v).data]


def scal(E, v):
    """a number, also when it comes as a one element array."""
    if isinstance(v, ArrV) and v.idx.size == 1:
        return E.I.nd(v).reshape(-1)[0]
    return v


def price_q(E, c, kw, call, **k):
    def f():
        o = E.make(c, kw)
        return scal(E, E.ask(o, "call" if call else "put", **k))
    return E.outcome(f)


def c17(E):
    rule = "European price = discounted expectation rolled back through every node"
    todo = []
    for nm in LATTICES:
        for call in (True, False):
            todo.append((nm, call))

    def one(item):
        nm, call = item
        c = E.cls(nm)
        side = "call" if call else "put"

        def run():
            for n in sizes(E, 8, 12):
                E.fresh()
                kw = E.params(c, n=n)
                got = price_q(E, c, kw, call)
                want = spec_cols(E, nm, 1 if call else -1, kw, n, False)[0][0]
                E.check_eq("%s %s, n=%d" % (nm, side, n), got, want, E.where(c, "_calc_price"), rule)
        E.explore(run)
        E.fresh()
        kw = E.params(c, skip=("type", "n"))
        names, d = E.ctor_params(c)
        got = price_q(E, c, kw, call)
        kw5 = dict(kw, type="european", n=num(5))
        E.check_eq("%s %s, type and n by default" % (nm, side), got, price_q(E, c, kw5, call), E.where(c, "__init__"),
                   "defaults are european with five steps")
        E.fresh()
        kw = E.params(c, n=2, b=num(0))
        E.check_eq("%s %s, b=0" % (nm, side), price_q(E, c, kw, call), spec_cols(E, nm, 1 if call else -1, kw, 2, False)[0][0],
                   E.where(c, "_calc_price"), rule)
    E.parallel(todo, one)


def c18(E):
    rule = "American node value = max(exercise value, discounted continuation)"
    todo = [(nm, call) for nm in LATTICES for call in (True, False)]

    def one(item):
        nm, call = item
        c = E.cls(nm)
        side = "call" if call else "put"

        def run():
            for n in sizes(E, 6, 6 if KIND[nm] == "TRI" else 8):
                E.fresh()
                kw = E.params(c, n=n, otype="american")
                got = price_q(E, c, kw, call)
                either(E, "%s american %s, n=%d" % (nm, side, n), got,
                       [lambda fl=fl: spec_cols(E, nm, 1 if call else -1, kw, n, True, fl)[0][0] for fl in (False, True)],
                       E.where(c, "_amer"), rule)
        E.explore(run)
    E.parallel(todo, one)


def either(E, name, got, wants, where, rule):
    """obligation: the outcome equals one of several equivalent readings of the reference."""
    base = len(E.obs)
    for w in wants:
        del E.obs[base:]
        if E.check_eq(name, got, E.outcome(w), where, rule) is True:
            return
    if len(wants) > 1:
        del E.obs[base:]
        E.check_eq(name, got, E.outcome(wants[0]), where, rule)


def tree_matrix(E, nm, cols, n):
    """the documented layout of an option tree."""
    I = E.I
    tri = nm == "TrinomialTreeOption"
    rows = 2 * n + 1 if tri else n + 1
    m = [[num(0)] * (n + 1) for _ in range(rows)]
    for j in range(n + 1):
        for i, v in enumerate(cols[j]):
            m[n - (i - j) if tri else j - i][j] = v
    return I.arr_from([x for r in m for x in r], (rows, n + 1))


def c28(E):
    rule = "tree column j = the option values at step j, node by node; zero elsewhere"
    todo = [(nm, call, ty) for nm in LATTICES for call in (True, False) for ty in ("european", "american")]

    def one(item):
        nm, call, ty = item
        c = E.cls(nm)
        side = "call" if call else "put"

        def run():
            for n in sizes(E, 5, 6 if KIND[nm] == "TRI" else 8):
                E.fresh()
                kw = E.params(c, n=n, otype=ty)
                o = E.outcome(lambda: E.make(c, kw), flat=False)
                got = E.outcome(lambda: E.ask(E.make(c, kw), side, tree=True))
                nmx = "%s %s %s tree, n=%d" % (nm, ty, side, n)
                either(E, nmx, got, [lambda fl=fl: tree_matrix(E, nm, spec_cols(E, nm, 1 if call else -1, kw, n, ty == "american", fl), n)
                                     for fl in ((False, True) if ty == "american" else (False,))], E.where(c, side), rule)
                root = (n, 0) if nm == "TrinomialTreeOption" else (0, 0)

                def corner():
                    t = E.ask(E.make(c, kw), side, tree=True)
                    return E.I.nd(E.I.ext.asarray(t))[root]
                E.check_eq("%s %s %s tree root, n=%d" % (nm, ty, side, n), E.outcome(corner), price_q(E, c, kw, call), E.where(c, side),
                           "the root of the tree is the price")
        E.explore(run)
    E.parallel(todo, one)


WRAP = {"BionomialSpreadOption": 1, "BionomialMaxOption": 2, "BionomialMinOption": 3}
P2 = ("S1", "S2", "K", "K2", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "Q1", "Q2")


def spec2(E, opt, call, kw, n, amer):
    return E.spec("tree2_price", num(opt), num(1 if call else -1), *[kw.get(k) if kw.get(k) is not None else num(0) for k in P2], num(n), amer)


def c19(E):
    rule = "payoff table"
    c = E.cls("BionomialSpreadAllTypes")
    todo = [("pay", opt, call) for opt in range(1, 10) for call in (True, False)] + [("wrap", nm, call) for nm in WRAP for call in (True, False)]

    def one(item):
        what, x, call = item
        side = "call" if call else "put"
        if what == "pay":
            for st in ("european", "american"):
                E.fresh()
                kw = E.params(c, n=1, otype=st, option=x)
                E.check_eq("payoff %d %s %s" % (x, st, side), price_q(E, c, kw, call), spec2(E, x, call, kw, 1, st == "american"),
                           E.where(c, "_payoff"), rule)
            E.fresh()
            drop = [k for k in ("K", "K2") if k not in {4: ("K", "K2"), 5: ("K", "K2"), 7: ()}.get(x, ("K",))]
            kw = E.params(c, n=1, otype="american", option=x, skip=drop + ["Q1", "Q2"])
            full = dict(kw, Q1=num(1), Q2=num(1))
            E.check_eq("payoff %d %s without the parameters it does not use" % (x, side), price_q(E, c, kw, call),
                       spec2(E, x, call, full, 1, True), E.where(c, "_payoff"), rule)
            if x == 1:
                E.fresh()
                kw = E.params(c, n=1, skip=("option", "otype"))
                E.check_eq("payoff and exercise style by default, %s" % side, price_q(E, c, kw, call), spec2(E, 1, call, kw, 1, False),
                           E.where(c, "__init__"), rule)
            return
        w = E.cls(x)
        for st in ("european", "american", None):
            for n in (1, 2):
                E.fresh()
                if st is None:
                    kw = E.params(w, skip=("otype", "n", "Q1", "Q2"))
                    full = dict(kw, otype="european", n=num(5), Q1=num(1), Q2=num(1))
                    if n == 2:
                        continue
                    kw["n"] = full["n"] = num(1)
                else:
                    kw = E.params(w, n=n, otype=st)
                    full = dict(kw)
                full["option"] = num(WRAP[x])
                E.check_eq("%s %s %s = payoff %d, n=%d" % (x, st or "default", side, WRAP[x], n), price_q(E, w, kw, call), price_q(E, c, full, call),
                           E.where(w, side), "wrappers price their payoff with the same parameters")
    E.parallel(todo, one)


def c20(E):
    rule = "Rubinstein lattice: node values, weights 1/4, discount per step"
    todo = []
    for nm in SPREADS:
        for st in ("european", "american"):
            for call in (True, False):
                for opt in ([WRAP[nm]] if nm in WRAP else range(1, 10)):
                    todo.append((nm, st, call, opt))

    def one(item):
        nm, st, call, opt = item
        c = E.cls(nm)
        side = "call" if call else "put"

        def run():
            for n in sizes(E, 6, 10):
                E.fresh()
                kw = E.params(c, n=n, otype=st, option=opt)
                E.check_eq("%s payoff %d %s %s, n=%d" % (nm, opt, st, side, n), price_q(E, c, kw, call), spec2(E, opt, call, kw, n, st == "american"),
                           E.where(c, "_calc_price"), rule)
        E.explore(run)
        E.fresh()
        kw = E.params(c, skip=("n",), otype=st, option=opt)
        if st == "european" and opt == 1 and E.thorough:
            E.check_eq("%s %s, n by default" % (nm, side), price_q(E, c, kw, call), price_q(E, c, dict(kw, n=num(5)), call), E.where(c, "__init__"),
                       "default is five steps")
    E.parallel(todo, one)
