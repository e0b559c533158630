"""C01-C09, C26: what options keep, share, accept and refuse."""
import itertools
from .. import nf, val
from ..val import AbsRaise, num
from ..interp import StrV, mkstr, OpqV, Ref, ArrV
from ..env import *
from ..env import variants, describe, arr_params


def where_events(E, evs):
    return "; ".join(sorted({"%s in %s (writes %s %s)" % (e.where, e.func, e.kind, e.key if e.key is not None else "") for e in evs})[:6])


def extra_objects(E):
    """(label, class, [(label, maker)]) of the classes that are not derived from Option."""
    I = E.I
    out = []
    mc = E.cls("MonteCarloOption")

    def mk(payoff, anti, std):
        def f(s=""):
            n = lambda p: E.sym(p, s)
            eps = I.arr_from([nf.sym("eps%d%d%s" % (i, j, s), pos=False) for i in range(2) for j in range(3)], (2, 3))
            return dict(mc_loops=num(2), path_length=num(3), mc_paths=num(2), S=n("S"), K=n("K"), t=n("t"), r=n("r"), b=n("b"), sigma=n("sigma"),
                        Innovation=E.cls("NormalSobolInnovations"), Path=E.cls("WienerPath"), Payoff=E.cls(payoff), eps=eps,
                        antithetic=anti, standardization=std)
        return f
    out.append((mc, [("%s%s%s" % (p, ", antithetic" if a else "", ", standardized" if s else ""), mk(p, a, s))
                     for p, a, s in (("PlainVanillaPayoff", False, False), ("ArithmeticAsianPayoff", True, False), ("PlainVanillaPayoff", True, True))]))
    hn = E.cls("HestonNandiOption")

    def mkh(s=""):
        return dict(S=E.sym("S", s), K=E.sym("K", s), t=num(2), r=E.sym("r", s), lamb=E.sym("lamb", s), omega=E.sym("omega", s),
                    alpha=E.sym("alpha", s), beta=E.sym("beta", s), gamma=E.sym("gamma", s))
    out.append((hn, [("t=2", mkh)]))
    return out


def subjects(E, arrays=True, full=False, others=True):
    """every (class, label, maker) the state properties quantify over."""
    for c in E.option_classes():
        for lab, mk in variants(E, c, arrays, full):
            yield c, lab, mk
    if others:
        for c, vs in extra_objects(E):
            for lab, mk in vs:
                yield c, lab, mk


def start(E, c, mk, suffix=""):
    E.fresh()
    return E.make(c, mk(suffix))


def answers(E, o, qs, st):
    """outcome of each question asked of o in (a copy of) state st."""
    out = {}
    for lab, m, kw in qs:
        E.at(st)
        E.I.watermark = 0
        out[lab] = E.q(o, m, **kw)
    return out


# ------------------------------------------------------------------ C01

def c01(E):
    rule = "no question writes to an object that existed before it, or every later answer is unaffected"
    def one(sub):
        c, lab, mk = sub
        name = describe(c, lab)
        try:
            o = start(E, c, mk)
        except SOFT + (AbsRaise,) as e:
            E.und("%s construction" % name, str(e), rule)
            return
        st0 = E.snap()
        qs = E.queries(c)
        dirty = []
        fails = []
        E.at(st0)
        before = E.outcome(lambda: o)
        for ql, m, kw in qs:
            E.at(st0)
            E.I.watermark = E.I.nid
            E.I.events.clear()
            E.I.solver_calls = 0
            r = E.q(o, m, **kw)
            evs = list(E.I.events)
            if E.I.solver_calls:
                fails.append((ql, m, kw, "solver_fault", "when its root finder gives up"))
            if r.guards:
                fails.append((ql, m, kw, "take_guards", "when it ends in an exception"))
            if r.kind == "und":
                E.und("%s.%s" % (name, ql), r.msg, rule)
                continue
            if not evs:
                E.ok("%s.%s writes nothing that existed before" % (name, ql), rule)
                continue
            dirty.append((ql, m, kw, evs, E.snap()))
        for ql, m, kw, flag, lab2 in fails:
            E.at(st0)
            E.I.watermark = E.I.nid
            E.I.events.clear()
            setattr(E.I, flag, True)
            try:
                r = E.q(o, m, **kw)
            finally:
                setattr(E.I, flag, False)
            evs = list(E.I.events)
            if r.kind == "und":
                E.und("%s.%s %s" % (name, ql, lab2), r.msg, rule)
            elif not evs:
                E.ok("%s.%s writes nothing that existed before %s" % (name, ql, lab2), rule)
            else:
                dirty.append(("%s %s" % (ql, lab2), None, kw, evs, E.snap()))
        if not dirty:
            return
        clean = answers(E, o, qs, st0)
        for ql, m, kw, evs, st in dirty:
            E.at(st)
            after = E.outcome(lambda: o)
            shared = any(e.target <= E.nid0 or e.target in E.I.watermark_extra for e in evs if isinstance(e.target, int)) or \
                any(not isinstance(e.target, int) for e in evs)
            same, _ = E.cmp_out(after, before)
            if same and not shared:
                E.ok("%s.%s restores every value it wrote" % (name, ql), rule)
                continue
            later = answers(E, o, qs, st)
            bad = None
            unk = None
            for l2 in clean:
                r, why = E.cmp_out(later[l2], clean[l2])
                if r is False:
                    bad = (l2, why)
                    break
                if r is None:
                    unk = (l2, why)
            if bad:
                E.viol("%s.%s changes the option" % (name, ql), where_events(E, evs),
                       "afterwards %s is %s" % bad, rule)
            elif unk:
                E.und("%s.%s" % (name, ql), "later %s: %s" % unk, rule)
            else:
                E.ok("%s.%s: writes do not reach any later answer" % (name, ql), rule)
        # all of them in a row
        E.at(st0)
        for ql, m, kw, evs, st in dirty:
            if m is not None:
                E.q(o, m, **kw)
        stz = E.snap()
        later = answers(E, o, qs, stz)
        for l2 in clean:
            r, why = E.cmp_out(later[l2], clean[l2])
            if r is False:
                E.viol("%s: %s after the questions %s" % (name, l2, ", ".join(d[0] for d in dirty)), where_events(E, [e for d in dirty for e in d[3]]), why, rule)
            elif r:
                E.ok("%s: %s is the same after every writing question" % (name, l2), rule)
    E.parallel(list(subjects(E, full=E.thorough)), one)


# ------------------------------------------------------------------ C02

def contents(E, v):
    return E.flat(v)


def c02(E):
    rule = "objects handed in by the caller hold the same values afterwards"
    I = E.I

    def check(name, where, inputs, fn):
        """inputs: {label: heap value}; fn runs the call."""
        before = {k: E.flat(v) for k, v in inputs.items()}
        I.watermark = I.nid
        I.events.clear()
        r = E.outcome(fn)
        evs = list(I.events)
        if r.kind == "und":
            E.und(name, r.msg, rule)
            return r
        for k, v in inputs.items():
            try:
                after = E.flat(v)
                same, why = E.same(after, before[k])
            except SOFT as e:
                E.und("%s: %s" % (name, k), str(e), rule)
                continue
            if same:
                E.ok("%s leaves %s alone" % (name, k), rule)
            else:
                E.viol("%s modifies %s" % (name, k), where_events(E, evs) or where, why, rule)
        return r

    # options with array parameters
    def options(job):
        cn, sub = job
        c = E.cls(cn)
        names, _ = E.ctor_params(c)
        for sub in [sub]:
            E.fresh()
            kw = arr_params(E, c, sub, 2)
            arrs = {p: kw[p] for p in sub}
            holder = {}

            def build():
                holder["o"] = E.make(c, kw)
                return None
            lab = "%s(%s arrays)" % (cn, "all" if len(sub) == len(names) else sub[0])
            r = check("%s construction" % lab, E.where(c, "__init__"), arrs, build)
            if r.kind != "val":
                continue
            st = E.snap()
            price = None
            for ql, m, k2 in E.queries(c):
                E.at(st)
                o = holder["o"]
                ins = dict(arrs)
                k2 = dict(k2)
                if "price" in k2:
                    k2["price"] = I.arr_from([nf.sym("price_%d" % i) for i in range(2)], (2,))
                    ins["price"] = k2["price"]
                check("%s.%s" % (lab, ql), E.where(c, m) if not m.startswith("__") else c.where(), ins, lambda: E.ask(o, m, **k2))
            for p in names:
                E.at(st)
                a2 = I.arr_from([nf.sym(p + "_n%d" % i) for i in range(2)], (2,))
                ins = dict(arrs)
                ins["new " + p] = a2
                o = holder["o"]
                check("%s.set_param(%s)" % (lab, p), E.where(c, "set_param"), ins, lambda: E.ask(o, "set_param", p, a2))
    jobs = []
    for cn in GBS_FAMILY + ["MiltersenSchwartzOption"]:
        names, _ = E.ctor_params(E.cls(cn))
        jobs += [(cn, s) for s in [names] + ([[p] for p in names] if E.thorough else [])]
    E.parallel(jobs, options)
    # size-one arrays on the American models
    for cn in ("RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption"):
        c = E.cls(cn)
        names, _ = E.ctor_params(c)
        E.fresh()
        kw = E.params(c)
        arrs = {}
        for p in names:
            kw[p] = arrs[p] = I.arr_from([kw[p]], (1,))
        check("%s(size-one arrays) construction" % cn, E.where(c, "__init__"), arrs, lambda: E.make(c, kw) and None)
    # the normal helpers on arrays
    base = E.cls("_Base") if E.I.find_class("_Base") else None
    gbs = E.cls("GBSOption")
    E.fresh()
    o = E.make(gbs, E.params(gbs))
    st = E.snap()
    for m in ("_CND", "_NDF"):
        E.at(st)
        x = I.arr_from([nf.sym("x_%d" % i, pos=False) for i in range(3)], (3,))
        I.lemma_on = False
        try:
            check("GBSOption.%s(array)" % m, E.where(gbs, m), {"x": x}, lambda: E.ask(o, m, x))
        finally:
            I.lemma_on = True
    # Monte Carlo pipeline
    from .sim import mc_classes
    inn, path, pays, mc = mc_classes(E)
    for anti, std, pay in itertools.product((False, True), (False, True), pays):
        for side in ("call", "put"):
            E.fresh()
            eps = I.arr_from([nf.sym("eps%d%d" % (i, j), pos=False) for i in range(2) for j in range(3)], (2, 3))
            h = {}

            def go():
                h["o"] = E.make(mc, dict(mc_loops=num(2), path_length=num(3), mc_paths=num(2), S=nf.sym("S"), K=nf.sym("K"), t=nf.sym("t"),
                                         r=E.sym("r"), b=E.sym("b"), sigma=nf.sym("sigma"), Innovation=inn, Path=path, Payoff=pay, eps=eps,
                                         antithetic=anti, standardization=std))
                return E.ask(h["o"], side)
            check("MonteCarloOption(%s%s%s).%s with preset eps" % (pay.name, ", antithetic" if anti else "", ", standardized" if std else "", side),
                  E.where(mc, side), {"eps": eps}, go)
    E.fresh()
    eps = I.arr_from([nf.sym("eps%d%d" % (i, j), pos=False) for i in range(2) for j in range(3)], (2, 3))
    check("NormalSobolInnovations(eps).sample_innovation", E.where(inn, "sample_innovation"), {"eps": eps},
          lambda: E.ask(E.make(inn, dict(mc_paths=num(2), path_length=num(3), eps=eps)), "sample_innovation"))
    E.fresh()
    eps = I.arr_from([nf.sym("eps%d%d" % (i, j), pos=False) for i in range(2) for j in range(3)], (2, 3))
    p = E.make(path, dict(epsilon=eps, sigma=nf.sym("sigma"), dt=nf.sym("dt"), b=E.sym("b")))
    check("WienerPath.generate_path", E.where(path, "generate_path"), {"epsilon": eps, "the path object": p}, lambda: E.ask(p, "generate_path"))
    st = E.snap()
    for pay in pays:
        for side in ("call", "put"):
            E.at(st)
            check("%s.%s" % (pay.name, side), E.where(pay, side), {"epsilon": eps, "the path object": p},
                  lambda: E.ask(E.make(pay, dict(path=p, S=nf.sym("S"), K=nf.sym("K"), t=nf.sym("t"), r=E.sym("r"), b=E.sym("b"), sigma=nf.sym("sigma"))), side))
    # GARCH
    sim = E.func("hngarch_sim")
    g = dict(lamb=E.sym("lamb"), omega=nf.sym("omega"), alpha=nf.sym("alpha"), beta=nf.sym("beta"), gamma=E.sym("gamma"), rf=nf.sym("rf", pos=False))
    for warm in (0, 1, 2):
        E.fresh()
        inno = I.arr_from([nf.sym("z%d" % i, pos=False) for i in range(3)], (3,))
        ins = {"inno": inno}
        k = dict(g, n=num(3), n_start=num(warm), inno=inno)
        if warm:
            k["inno_start"] = ins["inno_start"] = I.arr_from([nf.sym("zs%d" % i, pos=False) for i in range(warm)], (warm,))
        check("hngarch_sim(%d warm-up draws)" % warm, "%s in hngarch_sim" % sim.where(), ins, lambda: I.call(sim, [], k))
    from .sim import garch_case, garch_params, llh_stub
    llh = I.rec(E.func("hngarch_fit").module.scope).data.get("_llhHNGarch")
    fit = E.func("hngarch_fit")
    wfit = "%s in hngarch_fit" % fit.where()
    for sym in (True, False):
        if llh is not None:
            for aslist in (True, False):
                E.fresh()
                g, rf, x0, h, Z, x = garch_case(E, 3, sym)
                x0 = I.mklist(x0) if aslist else I.arr_from(x0, (5,))
                check("_llhHNGarch(symmetric=%s)" % sym, "%s in _llhHNGarch" % llh.where(), {"x": x, "start values": x0},
                      lambda: I.call(llh, [], dict(x0=x0, trace=False, symmetric=sym, rfr=rf, x=x)))
        E.fresh()
        g, rf, _, _, _, x = garch_case(E, 1, sym)
        check("hngarch_fit(symmetric=%s, start values given)" % sym, wfit, {"x": x}, lambda: I.call(fit, [], dict(g, rf=rf, x=x, symmetric=sym, trace=False)))
        E.fresh()
        x = I.arr_from([nf.sym("x%d" % i, pos=False) for i in range(2)], (2,))
        I.hooks = [llh_stub(E)]
        check("hngarch_fit(symmetric=%s, default start values)" % sym, wfit, {"x": x}, lambda: I.call(fit, [], dict(x=x, symmetric=sym, trace=False)))
        I.hooks = []
    # option objects handed to the greek calculator
    try:
        fdm = E.cls("GreeksFDM")
    except Missing:
        return
    for cn in ("GBSOption", "CRRBinomialTreeOption"):
        c = E.cls(cn)
        E.fresh()
        o = E.make(c, E.params(c))
        gk = E.make(fdm, {}, [o])
        st = E.snap()
        for ql, m, kw in E.queries(fdm):
            if m.startswith("__"):
                continue
            E.at(st)
            check("GreeksFDM(%s).%s" % (cn, ql), E.where(fdm, m), {"the option": o}, lambda: E.ask(gk, m, **kw))


# ------------------------------------------------------------------ C03

def c03(E):
    r1 = "no construction or question writes to class, module, default-argument or cache state, or no later answer depends on it"
    r2 = "no clock, environment or random source is read by an option (Monte Carlo innovations and hngarch_sim apart)"
    r3 = "a copy is independent of its original"
    I = E.I
    def one(sub):
        c, lab, mk = sub
        name = describe(c, lab)
        try:
            E.fresh()
            I.rand_events.clear()
            I.watermark = E.nid0
            o1 = E.make(c, mk("'"))
        except SOFT + (AbsRaise,) as e:
            E.und("%s construction" % name, str(e), r1)
            return
        qs = E.queries(c)
        evs = list(I.events)
        st1 = E.snap()
        allow_rand = c.name == "MonteCarloOption"
        rnd = list(I.rand_events)
        for ql, m, kw in qs:
            I.watermark = E.nid0
            E.q(o1, m, **kw)
        rnd += [x for x in I.rand_events if x not in rnd]
        if not allow_rand:
            if rnd:
                E.viol("%s uses %s" % (name, rnd[0][1]), "in %s" % rnd[0][2], "%s source %s is consulted" % (rnd[0][0], rnd[0][1]), r2)
            else:
                E.ok("%s consults no clock, environment or random source" % name, r2)
        evs = list(I.events)
        shared = [e for e in evs if not isinstance(e.target, int) or e.target <= E.nid0 or e.target in I.watermark_extra]
        std = E.snap()
        # two objects, first one dirty
        if not shared:
            E.ok("%s: construction and all %d questions write to no shared object" % (name, len(qs)), r1)
        else:
            base = mk("")
            news = [("all parameters", "")]
            clean_o = start(E, c, mk)
            stc = E.snap()
            clean = answers(E, clean_o, qs, stc)
            diffs = [None]
            names, _ = E.ctor_params(c)
            diffs += [p for p in mk("") if isinstance(mk("").get(p), nf.RF) and p != "n"]
            bad = unk = None
            for p in diffs:
                # the dirtying object differs from the new one in every / in one parameter
                E.fresh()
                kw = mk("'") if p is None else mk("")
                if p is not None:
                    kw[p] = E.sym(p, "'")
                oo = E.make(c, kw)
                own = {}
                if p is None:
                    own_st = E.snap()
                    own = answers(E, oo, qs, own_st)
                    E.at(own_st)
                for ql, m, k2 in qs:
                    E.q(oo, m, **k2)
                o2 = E.make(c, mk(""))
                later = answers(E, o2, qs, E.snap())
                for l2 in clean:
                    r, why = E.cmp_out(later[l2], clean[l2])
                    if r is False and bad is None:
                        bad = ("a second object's %s after another object (differing in %s) was used" % (l2, p or "everything"), why)
                    elif r is None:
                        unk = (l2, why)
                if own and bad is None:
                    for ql, m, k2 in qs:
                        E.q(o2, m, **k2)
                    later = answers(E, oo, qs, E.snap())
                    for l2 in own:
                        r, why = E.cmp_out(later[l2], own[l2])
                        if r is False and bad is None:
                            bad = ("an object's %s after a second object was built and used" % l2, why)
                if bad:
                    break
            if bad:
                E.viol("%s: %s" % (name, bad[0]), where_events(E, shared), bad[1], r1)
            elif unk:
                E.und("%s shared writes" % name, "%s: %s" % unk, r1)
            else:
                E.ok("%s: its writes to shared objects reach no answer" % name, r1)
        # same question twice
        E.at(st1)
        if not shared and not rnd:
            E.ok("%s: nothing but its own state and arguments reaches an answer" % name, r1)
        else:
            for ql, m, kw in qs:
                if allow_rand and m in ("__repr__", "__str__"):
                    continue
                E.at(st1)
                a = E.q(o1, m, **kw)
                b = E.q(o1, m, **kw)
                r, why = E.cmp_out(b, a)
                if r is False:
                    E.viol("%s.%s asked twice" % (name, ql), E.where(c, m) if not m.startswith("__") else c.where(), why, r1)
                elif r:
                    E.ok("%s.%s answers the same twice" % (name, ql), r1)
        # copies
        if I.class_attr(c, "copy")[1] is not None and I.class_attr(c, "set_param")[1] is not None:
            E.fresh()
            o = E.make(c, mk(""))
            sto = E.snap()
            b0 = E.outcome(lambda: o)
            r = E.outcome(lambda: E.ask(o, "copy"), flat=False)
            if r.kind != "val":
                E.und("%s.copy()" % name, r.msg, r3)
                return
            cp = r.raw
            fc = E.outcome(lambda: cp)
            same, why = E.cmp_out(fc, b0)
            if same is False:
                E.viol("%s.copy() differs from the original" % name, E.where(c, "copy"), why, r3)
            names, _ = E.ctor_params(c)
            I.watermark = I.nid
            I.events.clear()
            for p in names:
                if p in ("n", "type", "otype", "option"):
                    continue
                E.outcome(lambda: E.ask(cp, "set_param", p, E.sym(p, "*")))
            for ql, m, kw in qs:
                if m in ("call", "put"):
                    E.q(cp, m, **kw)
            a0 = E.outcome(lambda: o)
            same, why = E.cmp_out(a0, b0)
            if same is False:
                stz = E.snap()
                clean = answers(E, o, qs, sto)
                later = answers(E, o, qs, stz)
                bad = [(l2,) + E.cmp_out(later[l2], clean[l2]) for l2 in clean]
                bad = [b for b in bad if b[1] is False]
                if bad:
                    E.viol("%s: %s after its copy was changed" % (name, bad[0][0]), where_events(E, list(I.events)) or E.where(c, "copy"), bad[0][2], r3)
                else:
                    E.ok("%s: changing a copy reaches no answer of the original" % name, r3)
            elif same:
                E.ok("%s: changing a copy leaves the original unchanged" % name, r3)
    E.parallel(list(subjects(E, arrays=False)), one)
    # simulation with given innovations is a function of its arguments; without, it draws
    sim = E.func("hngarch_sim")
    for warm in (0, 2):
        E.fresh()
        I.rand_events.clear()
        I.watermark = E.nid0
        inno = I.arr_from([nf.sym("z%d" % i, pos=False) for i in range(3)], (3,))
        k = dict(lamb=E.sym("lamb"), omega=nf.sym("omega"), alpha=nf.sym("alpha"), beta=nf.sym("beta"), gamma=E.sym("gamma"), n=num(3), inno=inno, n_start=num(warm))
        if warm:
            k["inno_start"] = I.arr_from([nf.sym("zs%d" % i, pos=False) for i in range(warm)], (warm,))
        a = E.outcome(lambda: I.call(sim, [], k))
        if I.rand_events:
            E.viol("hngarch_sim with innovations given draws random numbers", "in %s" % I.rand_events[0][2], str(I.rand_events[0][:2]), r2)
        elif a.kind == "und":
            E.und("hngarch_sim with innovations", a.msg, r2)
        else:
            E.ok("hngarch_sim with innovations given draws nothing (%d warm-up)" % warm, r2)
        b = E.outcome(lambda: I.call(sim, [], k))
        r, why = E.cmp_out(b, a)
        if r is False:
            E.viol("hngarch_sim called twice", sim.where(), why, r1)
    from .sim import garch_case
    fit = E.func("hngarch_fit")
    for sym in (True, False):
        E.fresh()
        I.rand_events.clear()
        g, rf, _, _, _, x = garch_case(E, 1, sym)
        go = lambda: E.outcome(lambda: I.call(fit, [], dict(g, rf=rf, x=x, symmetric=sym, trace=False)))
        a, b = go(), go()
        r, why = E.cmp_out(b, a)
        if I.rand_events:
            E.viol("hngarch_fit uses %s" % I.rand_events[0][1], "in %s" % I.rand_events[0][2], "", r2)
        if r is False:
            E.viol("hngarch_fit called twice", fit.where(), why, r1)
        elif r:
            E.ok("hngarch_fit(symmetric=%s) answers the same twice" % sym, r1)
        else:
            E.und("hngarch_fit(symmetric=%s)" % sym, why, r1)


# ------------------------------------------------------------------ C04

def param_values(E, c):
    """value kinds tried for a parameter set: generic, real-signed, arrays."""
    return ()


def check_params(E, name, c, o, want, rule):
    r = E.outcome(lambda: E.ask(o, "get_params"), flat=False)
    wh = E.where(c, "get_params")
    if r.kind == "und":
        E.und(name, r.msg, rule)
        return
    if r.kind == "exc":
        E.viol("%s.get_params() raises" % name, r.where or wh, "%s %s" % (r.exc, r.msg), rule)
        return
    if not (isinstance(r.raw, Ref) and E.I.rec(r.raw).kind == "dict"):
        E.viol("%s.get_params() is not a dictionary" % name, wh, short(E.flat(r.raw)), rule)
        return
    d = E.deref(r.raw)
    for p, v in want.items():
        if p not in d:
            E.viol("%s.get_params() lacks %s" % (name, p), wh, "keys are %s" % sorted(map(str, d)), rule)
            continue
        try:
            same, why = E.same(E.flat(d[p]), E.flat(v))
        except SOFT as e:
            E.und("%s.get_params()[%s]" % (name, p), str(e), rule)
            continue
        if same:
            E.ok("%s.get_params()[%s]" % (name, p), rule)
        else:
            E.viol("%s.get_params()[%s] is not what was passed" % (name, p), wh, why, rule)
    for p in d:
        if p not in want:
            E.viol("%s.get_params() reports %s, which is not a parameter" % (name, p), wh, short(E.flat(d[p])), rule)


def c04(E):
    rule = "get_params()[p] is the constructor argument p, or its declared default"
    for c in E.option_classes():
        names, dflt = E.ctor_params(c)

        def want(kw):
            w = {p: kw.get(p, dflt.get(p)) for p in names}
            if c.name == "Black76Option":
                w["b"] = num(0)
            return w
        cases = []
        for lab, mk in variants(E, c, arrays=False, full=True):
            cases.append((lab, lambda mk=mk: mk("")))
        # every parameter of unrestricted sign
        def signed():
            kw = E.params(c, "")
            for p in kw:
                if isinstance(kw[p], nf.RF) and p not in ("n", "option"):
                    kw[p] = nf.sym(p + "~", pos=False)
            return kw
        cases.append(("any sign", signed))
        # omitted optional parameters, one by one and all
        for p in dflt:
            cases.append(("default %s" % p, lambda p=p: E.params(c, "", skip=(p,))))
        if dflt:
            cases.append(("all defaults", lambda: E.params(c, "", skip=tuple(dflt))))
        for p in names:
            if p in ("n", "type", "otype", "option"):
                continue
            cases.append(("%s=0" % p, lambda p=p: E.params(c, "", **{p: num(0)})))
        if c.name in GBS_FAMILY + ["MiltersenSchwartzOption"]:
            cases.append(("arrays", lambda: arr_params(E, c, names, 2)))
            for p in names:
                cases.append(("array %s" % p, lambda p=p: arr_params(E, c, [p], 2)))
        for lab, f in cases:
            E.fresh()
            kw = f()
            name = describe(c, lab)
            r = E.outcome(lambda: E.make(c, kw), flat=False)
            if r.kind == "exc":
                if lab.endswith("=0") and r.exc in ("ZeroDivisionError", "FloatingPointError"):
                    continue
                E.viol("%s cannot be built" % name, r.where or E.where(c, "__init__"), "%s %s" % (r.exc, r.msg), rule)
                continue
            if r.kind == "und":
                if not lab.endswith("=0"):
                    E.und(name, r.msg, rule)
                continue
            check_params(E, name, c, r.raw, want(kw), rule)


# ------------------------------------------------------------------ C05

def new_value(E, c, p, kw):
    if p == "n":
        return E.tconst(3)
    if p in ("type", "otype"):
        return "american" if kw[p] == "european" else "european"
    if p == "option":
        return E.tconst(6)
    return E.sym(p, "'")


def c05(E):
    rule = "state after set_param(p, v) equals that of a new object built with p=v"
    rule2 = "set_param refuses names that are not parameters"
    I = E.I
    classes = E.option_classes()
    allnames = []
    for c in classes:
        for p in E.ctor_params(c)[0]:
            if p not in allnames:
                allnames.append(p)
    def one(sub):
        c, lab, mk = sub
        names, dflt = E.ctor_params(c)
        wh = E.where(c, "set_param")
        qs = E.queries(c)
        for _ in range(1):
            name = describe(c, lab)
            E.fresh()
            kw = mk("")
            r = E.outcome(lambda: E.make(c, kw), flat=False)
            if r.kind != "val":
                E.und(name, r.msg, rule)
                continue
            o = r.raw
            st0 = E.snap()
            # history: everything asked once
            I.watermark = I.nid
            I.events.clear()
            for ql, m, k2 in qs:
                E.q(o, m, **k2)
            used = bool(I.events)
            st1 = E.snap()
            pairs = []
            for p in names:
                if p in kw:
                    pairs.append((p, new_value(E, c, p, kw), "new value"))
                elif p == "sigma":
                    pairs.append((p, E.sym("sigma", "'"), "new value"))
                if p in dflt and dflt[p] is None:
                    pairs.append((p, None, "None"))
                if c.name in GBS_FAMILY + ["MiltersenSchwartzOption"]:
                    pairs.append((p, I.arr_from([E.sym(p + "_%d" % i, "'") for i in range(2)], (2,)), "an array"))
            if c.name == "Black76Option":
                pairs.append(("S", E.sym("FT", "'"), "new value"))
            for p, v, vl in pairs:
                real = "FT" if (c.name == "Black76Option" and p == "S") else p
                for hist, st in (("", st0),) + ((("after every question, ", st1),) if used else ()):
                    title = "%s %sset_param(%s, %s)" % (name, hist, p, vl)
                    E.at(st)
                    if isinstance(v, ArrV) or any(isinstance(z, ArrV) for z in kw.values()):
                        # arrays live in the heap of this state
                        pass
                    vv = v
                    if isinstance(v, ArrV):
                        vv = I.arr_from([E.sym(p + "_%d" % i, "'") for i in range(2)], (2,))
                    k2 = dict(kw)
                    k2[real] = vv
                    fr = E.outcome(lambda: E.make(c, k2), flat=False)
                    sr = E.outcome(lambda: E.ask(o, "set_param", p, vv), flat=False)
                    if fr.kind == "und" or sr.kind == "und":
                        E.und(title, fr.msg or sr.msg, rule)
                        continue
                    if sr.kind == "exc":
                        if fr.kind == "exc":
                            E.ok(title + ": both refuse", rule)
                        else:
                            E.viol("%s is refused" % title, sr.where or wh, "%s %s" % (sr.exc, sr.msg), rule)
                        continue
                    if fr.kind == "exc":
                        # construction refuses the value: set_param must not leave a usable option with it
                        E.viol("%s is accepted but construction refuses it" % title, wh, "%s %s" % (fr.exc, fr.msg), rule)
                        continue
                    f = fr.raw
                    a, b = E.outcome(lambda: o), E.outcome(lambda: f)
                    same, why = E.cmp_out(a, b)
                    if same:
                        E.ok(title, rule)
                        continue
                    stx = E.snap()
                    bad = unk = None
                    for ql, m, k3 in qs:
                        E.at(stx)
                        x = E.q(o, m, **k3)
                        E.at(stx)
                        y = E.q(f, m, **k3)
                        rr, why2 = E.cmp_out(x, y)
                        if rr is False:
                            bad = (ql, why2)
                            break
                        if rr is None:
                            unk = (ql, why2)
                    if bad:
                        E.viol("%s: %s differs from a new option" % (title, bad[0]), wh, bad[1], rule)
                    elif unk:
                        E.und(title, "%s: %s" % unk, rule)
                    else:
                        E.ok(title + " (all answers equal)", rule)
            # unknown names
            bogus = [x for x in allnames if x not in names] + ["foo", "Sigma", "s", "vol", "_S", "", "price"]
            if c.name != "Black76Option":
                bogus += [x for x in ("S",) if x not in names and x not in bogus]
            else:
                bogus = [x for x in bogus if x != "S"]
            for x in bogus:
                if x in names:
                    continue
                E.at(st0)
                before = E.outcome(lambda: o)
                sr = E.outcome(lambda: E.ask(o, "set_param", x, nf.sym("val'")), flat=False)
                title = "%s set_param(%r, ...)" % (name, x)
                if sr.kind == "exc":
                    E.ok(title + " is refused", rule2)
                elif sr.kind == "und":
                    E.und(title, sr.msg, rule2)
                else:
                    E.viol("%s is accepted" % title, wh, "no exception for a name that is not a parameter of %s" % c.name, rule2)
    E.parallel([(c, lab, mk) for c in classes for lab, mk in variants(E, c, arrays=True)], one)


# ------------------------------------------------------------------ C06

def c06(E):
    rule = "construction raises TypeError for any array parameter with more than one element and accepts single-element arrays"
    I = E.I
    for cn in ("RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption"):
        c = E.cls(cn)
        names, _ = E.ctor_params(c)
        wh = E.where(c, "__init__")
        subs = [(p,) for p in names] + [tuple(names)] + (list(itertools.combinations(names, 2)) if E.thorough else [])
        for sub in subs:
            for sh in ((2,), (1, 2), (2, 1), (3,), (2, 2)):
                E.fresh()
                kw = E.params(c)
                n = 1
                for z in sh:
                    n *= z
                for p in sub:
                    kw[p] = I.arr_from([E.sym(p + "_%d" % i) for i in range(n)], sh)
                r = E.outcome(lambda: E.make(c, kw), flat=False)
                t = "%s with %s of shape %s" % (cn, "/".join(sub) if len(sub) < 4 else "all", sh)
                if r.kind == "und":
                    E.und(t, r.msg, rule)
                elif r.kind == "exc" and exc_isa(r.exc, "TypeError"):
                    E.ok(t + " is refused", rule)
                elif r.kind == "exc":
                    E.viol("%s raises %s" % (t, r.exc), r.where or wh, r.msg, rule)
                else:
                    E.viol("%s is accepted" % t, wh, "no TypeError", rule)
            for sh in ((), (1,), (1, 1)):
                E.fresh()
                kw = E.params(c)
                for p in sub:
                    kw[p] = I.arr_from([kw[p]], sh)
                r = E.outcome(lambda: E.make(c, kw), flat=False)
                t = "%s with %s of shape %s" % (cn, "/".join(sub) if len(sub) < 4 else "all", sh)
                if r.kind == "exc":
                    E.viol("%s is refused" % t, r.where or wh, "%s %s" % (r.exc, r.msg), rule)
                elif r.kind == "und":
                    E.und(t, r.msg, rule)
                else:
                    E.ok(t + " is accepted", rule)
        for skip in ((), ("sigma",)):
            E.fresh()
            r = E.outcome(lambda: E.make(c, E.params(c, skip=skip)), flat=False)
            t = "%s with scalars%s" % (cn, " and no sigma" if skip else "")
            if r.kind == "exc":
                E.viol("%s is refused" % t, r.where or wh, "%s %s" % (r.exc, r.msg), rule)
            elif r.kind == "val":
                E.ok(t + " is accepted", rule)


# ------------------------------------------------------------------ C07

def elements(fv, i, cnt):
    """element i of a flat array answer, or the scalar itself."""
    if isinstance(fv, tuple) and fv and fv[0] == "array":
        if fv[1] == "(%d,)" % cnt:
            return fv[2 + i]
        if fv[1] == "()":
            return fv[2]
        return ("shape", fv[1])
    if isinstance(fv, tuple) and fv and fv[0] == "dict":
        return ("dict",) + tuple((k, elements(z, i, cnt)) for k, z in fv[1:])
    if isinstance(fv, Gam):
        return val.mkgam(fv.xid, fv.mask, elements(fv.t, i, cnt), elements(fv.f, i, cnt))
    return fv


def has_shape(fv, cnt):
    if isinstance(fv, tuple) and fv and fv[0] == "dict":
        return all(has_shape(z, cnt) for k, z in fv[1:])
    if isinstance(fv, Gam):
        return has_shape(fv.t, cnt) and has_shape(fv.f, cnt)
    return isinstance(fv, tuple) and bool(fv) and fv[0] == "array" and fv[1] == "(%d,)" % cnt


def c07(E):
    rule = "element i of the answer equals the answer for the parameters at position i"
    I = E.I
    CNT = 3
    for cn in GBS_FAMILY + ["MiltersenSchwartzOption"]:
        c = E.cls(cn)
        names, _ = E.ctor_params(c)
        if cn == "MiltersenSchwartzOption":
            qs = [("call()", "call", {}), ("put()", "put", {})]
        else:
            qs = [q for q in E.queries(c) if q[1] in ("call", "put", "delta", "theta", "vega", "rho", "lamb", "gamma", "c_of_c", "greeks") and q[2].get("method") != "fdm"]
        subs = [[p] for p in names] + [list(names)]
        if E.thorough and cn != "MiltersenSchwartzOption":
            subs += [list(x) for k in range(2, len(names)) for x in itertools.combinations(names, k)]
        elif cn != "MiltersenSchwartzOption":
            subs += [[p for p in names if p != q] for q in names]
        for sub in subs:
            E.fresh()
            kw = arr_params(E, c, sub, CNT)
            lab = "%s(array %s)" % (cn, "/".join(sub) if len(sub) < 5 else "in all but %s" % "/".join(set(names) - set(sub)) if len(sub) < len(names) else "everywhere")
            r = E.outcome(lambda: E.make(c, kw), flat=False)
            if r.kind != "val":
                if r.kind == "exc":
                    E.viol("%s cannot be built" % lab, r.where or E.where(c, "__init__"), "%s %s" % (r.exc, r.msg), rule)
                else:
                    E.und(lab, r.msg, rule)
                continue
            o = r.raw
            sc = []
            for i in range(CNT):
                k1 = {p: (list(I.nd(v).reshape(-1))[i] if isinstance(v, ArrV) else v) for p, v in kw.items()}
                sc.append(E.make(c, k1))
            st = E.snap()
            for ql, m, k2 in qs:
                E.at(st)
                a = E.q(o, m, **k2)
                t = "%s.%s" % (lab, ql)
                wh = E.where(c, m)
                if a.kind == "und":
                    E.und(t, a.msg, rule)
                    continue
                if a.kind == "exc":
                    E.viol("%s raises" % t, a.where or wh, "%s %s" % (a.exc, a.msg), rule)
                    continue
                if len(sub) == len(names) and not has_shape(a.v, CNT):
                    E.viol("%s does not have one element per array element" % t, wh, short(a.v), rule)
                    continue
                for i in range(CNT):
                    E.at(st)
                    s = E.q(sc[i], m, **k2)
                    if s.kind != "val":
                        E.und(t, s.msg, rule)
                        continue
                    el = elements(a.v, i, CNT)
                    try:
                        same, why = E.same(el, s.v, True)
                    except SOFT as e:
                        E.und(t, str(e), rule)
                        continue
                    if same:
                        E.ok("%s element %d" % (t, i), rule)
                    elif same is None:
                        E.und(t, why, rule)
                    else:
                        E.viol("%s element %d" % (t, i), wh, why, rule)
    # the helpers they rely on
    gbs = E.cls("GBSOption")
    I.lemma_on = False
    try:
        for m in ("_CND", "_NDF"):
            if I.class_attr(gbs, m)[1] is None:
                continue
            E.fresh()
            o = E.make(gbs, E.params(gbs))
            xs = [nf.sym("x_%d" % i, pos=False) for i in range(2)] + [num(0)]
            a = E.q(o, m, I.arr_from(xs, (3,)))
            if a.kind != "val":
                if a.kind == "exc":
                    E.viol("GBSOption.%s(array) raises" % m, a.where or E.where(gbs, m), a.msg, rule)
                else:
                    E.und(m, a.msg, rule)
                continue
            for i in range(3):
                s = E.q(o, m, xs[i])
                if s.kind == "val":
                    same, why = E.same(elements(a.v, i, 3), s.v, True)
                    if same:
                        E.ok("GBSOption.%s(array) element %d" % (m, i), rule)
                    elif same is None:
                        E.und("GBSOption.%s(array) element %d" % (m, i), why, rule)
                    else:
                        E.viol("GBSOption.%s(array) element %d" % (m, i), E.where(gbs, m), why, rule)
    finally:
        I.lemma_on = True


# ------------------------------------------------------------------ C08

def c08(E):
    rule = "without sigma every pricing question raises ValueError"
    rule2 = "without sigma construction, parameters, texts and volatility still work"
    I = E.I
    for cn in GBS_FAMILY:
        c = E.cls(cn)
        names, dflt = E.ctor_params(c)

        def omitted():
            return E.make(c, E.params(c, skip=("sigma",)))

        def none():
            return E.make(c, E.params(c, sigma=None))

        def late():
            o = E.make(c, E.params(c))
            E.ask(o, "set_param", "sigma", None)
            return o

        def late2():
            o = omitted()
            E.ask(o, "set_param", "K", nf.sym("K'"))
            return o
        builds = [("sigma omitted", omitted), ("sigma=None", none), ("set_param(sigma, None)", late), ("sigma omitted, set_param(K)", late2)]
        for p in (() if not E.thorough else [p for p in names if p != "sigma"]):
            builds.append(("sigma omitted, array %s" % p, lambda p=p: E.make(c, {k: v for k, v in arr_params(E, c, [p], 2).items() if k != "sigma"})))
        builds.append(("sigma omitted, all arrays", lambda: E.make(c, {k: v for k, v in arr_params(E, c, names, 2).items() if k != "sigma"})))
        for bl, b in builds:
            for zero_b in (False, True):
                E.fresh()
                if zero_b:
                    if bl != "sigma omitted" or "b" not in names:
                        continue
                    r = E.outcome(lambda: E.make(c, E.params(c, skip=("sigma",), b=num(0))), flat=False)
                else:
                    r = E.outcome(b, flat=False)
                name = "%s(%s%s)" % (cn, bl, ", b=0" if zero_b else "")
                if r.kind == "exc":
                    E.viol("%s cannot be built" % name, r.where or E.where(c, "__init__"), "%s %s" % (r.exc, r.msg), rule2)
                    continue
                if r.kind == "und":
                    E.und(name, r.msg, rule2)
                    continue
                o = r.raw
                st = E.snap()
                for ql, m, kw in E.queries(c):
                    E.at(st)
                    a = E.q(o, m, **kw)
                    t = "%s.%s" % (name, ql)
                    wh = E.where(c, m) if not m.startswith("__") else c.where()
                    if a.kind == "und":
                        E.und(t, a.msg, rule)
                    elif m in ("get_params", "summary", "volatility", "__repr__", "__str__"):
                        if a.kind == "exc":
                            E.viol("%s raises" % t, a.where or wh, "%s %s" % (a.exc, a.msg), rule2)
                        else:
                            E.ok(t, rule2)
                    elif a.kind == "exc" and exc_isa(a.exc, "ValueError"):
                        E.ok(t + " raises ValueError", rule)
                    elif a.kind == "exc":
                        E.viol("%s raises %s, not ValueError" % (t, a.exc), a.where or wh, a.msg, rule)
                    else:
                        E.viol("%s returns a value" % t, wh, short(a.v), rule)
                E.at(st)
                a = E.q(o, "summary", printer=True)
                if a.kind == "exc":
                    E.viol("%s.summary(printer=True) raises" % name, a.where or E.where(c, "summary"), a.msg, rule2)
                for p in names:
                    E.at(st)
                    a = E.outcome(lambda: E.ask(o, "set_param", p, E.sym(p, "'")), flat=False)
                    if a.kind == "exc":
                        E.viol("%s.set_param(%s) raises" % (name, p), a.where or E.where(c, "set_param"), "%s %s" % (a.exc, a.msg), rule2)
                    elif a.kind == "val":
                        E.ok("%s.set_param(%s)" % (name, p), rule2)


# ------------------------------------------------------------------ C09

UNKNOWN = "?unknown-selector?"


def bad_values(kind):
    if kind == "type":
        return [UNKNOWN, "asian", "bermudan", "", "eur", "europeanish", "europe", "amer", "american-style", "e", "a", "c", "none", None, 0, 1, 2, True, False]
    if kind == "method":
        return [UNKNOWN, "numerical", "analytical", "fd", "fdm2", "finite", "a", "f", "", "none", None, 0, 1, True, False]
    return [UNKNOWN, 0, 10, -1, -2, -8, -9, 11, 99, None, "spread", "1"]


def mkval(E, v):
    if v is UNKNOWN:
        return StrV((OpqV(("unknown selector",)),))
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, float):
        return nf.rf_const(nf.Fr(v))
    return num(v)


def c09(E):
    rule = "an unknown exercise type, payoff number or greek method raises at construction or at the question"
    I = E.I

    def refused(name, c, build, qs):
        E.fresh()
        r = E.outcome(build, flat=False)
        if r.kind == "exc":
            E.ok("%s is refused when set" % name, rule)
            return
        if r.kind == "und":
            E.und(name, r.msg, rule)
            return
        o = r.raw
        st = E.snap()
        for ql, m, kw in qs:
            E.at(st)
            a = E.q(o, m, **kw)
            t = "%s.%s" % (name, ql)
            if a.kind == "exc":
                E.ok(t + " raises", rule)
            elif a.kind == "und":
                E.und(t, a.msg, rule)
            else:
                E.viol("%s returns a value" % t, E.where(c, m), short(a.v), rule)

    for cn in LATTICES + SPREADS:
        c = E.cls(cn)
        names, _ = E.ctor_params(c)
        tp = "type" if "type" in names else "otype"
        if tp not in names:
            raise Missing("exercise type parameter of %s" % cn)
        qs = [q for q in E.queries(c) if q[1] in ("call", "put", "delta", "theta", "vega", "rho", "lamb", "gamma", "greeks")]
        few = [q for q in qs if q[1] in ("call", "put")]
        for k, v in enumerate(bad_values("type")):
            def build(v=v):
                kw = E.params(c, n=1)
                kw[tp] = mkval(E, v)
                return E.make(c, kw)

            def late(v=v):
                o = E.make(c, E.params(c, n=1))
                E.ask(o, "set_param", tp, mkval(E, v))
                return o
            refused("%s(%s=%r)" % (cn, tp, v), c, build, qs if k < 3 or E.thorough else few)
            refused("%s.set_param(%s, %r)" % (cn, tp, v), c, late, few)
        if "option" in names:
            for k, v in enumerate(bad_values("option")):
                for st in ("european", "american"):
                    def build(v=v, st=st):
                        kw = E.params(c, n=1, otype=st)
                        kw["option"] = mkval(E, v)
                        return E.make(c, kw)
                    refused("%s(option=%r, %s)" % (cn, v, st), c, build, qs if k < 3 or E.thorough else few)

                def late(v=v):
                    o = E.make(c, E.params(c, n=1))
                    E.ask(o, "set_param", "option", mkval(E, v))
                    return o
                refused("%s.set_param(option, %r)" % (cn, v), c, late, few)
    for cn in GBS_FAMILY:
        c = E.cls(cn)
        names, _ = E.ctor_params(c)
        ms = {}
        for ql, m, kw in E.queries(c):
            if "method" in kw:
                k2 = {k: v for k, v in kw.items() if k != "method"}
                if k2 not in ms.setdefault(m, []):
                    ms[m].append(k2)
        for g in ("delta", "theta", "vega", "rho", "lamb", "gamma"):
            if g not in ms:
                raise Missing("method selector of %s.%s" % (cn, g))
        for zb in ((False, True) if "b" in names else (False,)):
            for v in bad_values("method"):
                E.fresh()
                o = E.make(c, E.params(c, b=num(0)) if zb else E.params(c))
                st = E.snap()
                for m, sides in ms.items():
                    for k2 in sides:
                        E.at(st)
                        a = E.q(o, m, method=mkval(E, v), **k2)
                        t = "%s%s.%s(%smethod=%r)" % (cn, "(b=0)" if zb else "", m, "call=%s, " % k2["call"] if "call" in k2 else "", v)
                        if a.kind == "exc":
                            E.ok(t + " raises", rule)
                        elif a.kind == "und":
                            E.und(t, a.msg, rule)
                        else:
                            E.viol("%s returns a value" % t, E.where(c, m), short(a.v), rule)


# ------------------------------------------------------------------ C26
TITLES = {"GBSOption": r"black.?.?scholes", "BlackScholesOption": r"black.?.?scholes", "Black76Option": r"black.?(19)?7",
          "MiltersenSchwartzOption": r"miltersen", "RollGeskeWhaleyOption": r"roll", "BAWAmericanApproxOption": r"barone|baw",
          "BSAmericanApproxOption": r"bjerksund", "CRRBinomialTreeOption": r"crr|cox", "JRBinomialTreeOption": r"\bjr\b|jarrow",
          "TIANBinomialTreeOption": r"\btian\b", "TrinomialTreeOption": r"trinomial", "SpreadApproxOption": r"spread.*approx",
          "BionomialSpreadAllTypes": r"rubinstein|all.?types", "BionomialMaxOption": r"max", "BionomialMinOption": r"min",
          "BionomialSpreadOption": r"spread"}
NOT_TITLES = {"BionomialSpreadOption": r"max|min|rubinstein|approx", "BionomialSpreadAllTypes": r"max|min", "BlackScholesOption": r"7[67]",
              "GBSOption": r"7[67]"}


def text_lines(s):
    """lines of a text: each a list of literal strings and value parts."""
    out = [[]]
    for p in (s.parts if isinstance(s, StrV) else (s,)):
        if isinstance(p, str):
            bits = p.split("\n")
            for k, b in enumerate(bits):
                if k:
                    out.append([])
                if b:
                    out[-1].append(b)
        else:
            out[-1].append(p)
    return out


def chomp(s):
    """a text without its last line end."""
    ps = list(s.parts) if isinstance(s, StrV) else [s]
    if ps and isinstance(ps[-1], str) and ps[-1].endswith("\n"):
        ps[-1] = ps[-1][:-1]
    return mkstr(ps)


def lit(line):
    return "".join(p for p in line if isinstance(p, str))


def unround(I, x, digits):
    """the value below roundings; the number of digits kept is noted."""
    if isinstance(x, Gam):
        return val.apply(lambda z: unround(I, z, digits), x)
    if isinstance(x, tuple):
        return tuple(unround(I, z, digits) for z in x)
    if isinstance(x, RF):
        ks = list(nf.direct_atoms(x))
        if len(ks) == 1:
            a = nf.ATOMS[ks[0]]
            if a.kind == "fn" and a.data[0] == "round" and nf.arg_eq(x, nf.rf_atom(a)):
                args = a.data[1]
                d = args[1].const() if isinstance(args[1], RF) else None
                digits.append(int(d) if d is not None else None)
                return args[0]
    return x


def shown_value(part):
    """the encoded value behind a formatted part."""
    return part[1]


def literal_of(v):
    if v is None or isinstance(v, (bool, str)):
        return str(v)
    if isinstance(v, RF) and v.const() is not None and v.const().denominator == 1:
        return str(v.const())
    return None


def c26(E):
    I = E.I
    import re
    rt = "summary and str name the model; repr names the class"
    rp = "every parameter is listed with its value"
    rc = "the call price is labelled call, the put price put"
    rn = "summary works without a price"
    rq = "summary(printer=True) prints what printer=False returns"

    def seven(c, names):
        return lambda s="": arr_params(E, c, names, 7, s, zero_b=False)

    def list_params(name, where, text, params):
        bad, unknown = [], []
        for leaf in val.leaves(text):
            if not isinstance(leaf, (str, StrV)):
                unknown.append("the text is %s" % short(leaf, 60))
                continue
            lines = text_lines(leaf)
            for p, v in params:
                rows = [l for l in lines if re.match(r"\W*%s\b\s*\W" % re.escape(p), lit(l[:1]))]
                if not rows:
                    bad.append("no line for parameter %s" % p)
                    continue
                want = literal_of(v)
                enc = I.encode(v)
                for l in rows:
                    if want is not None:
                        rest = re.sub(r"^\W*%s\b" % re.escape(p), "", lit(l), count=1)
                        good = re.search(r"(^|[^\w.])%s(\.0+)?($|[^\w.])" % re.escape(want), rest) is not None
                    else:
                        good = any(values_agree(E, shown_value(q), enc) for q in l if not isinstance(q, str))
                    if not good:
                        bad.append("the line of %s does not show its value" % p)
        if bad:
            E.viol(name, where, "; ".join(sorted(set(bad))[:5]), rp)
        elif unknown:
            E.und(name, unknown[0], rp)
        else:
            E.ok(name, rp, n=len(params))

    def price_text(text, side):
        def leaf(s):
            if not isinstance(s, (str, StrV)):
                return "?"
            for l in text_lines(s):
                label = None
                for p in l:
                    if isinstance(p, str):
                        for w in re.findall(r"call|put", p.lower()):
                            label = w
                    elif label == side:
                        return I_wrap(shown_value(p))
                if label == side and len(l) == 1:
                    m = re.search(r"%s[^:=]*[:=]\s*(-?\d+)\s*$" % side, l[0].lower())
                    if m:
                        return I_wrap(num(int(m.group(1))))
            return "none"
        return val.apply(leaf, text)

    def I_wrap(x):
        return x if not isinstance(x, tuple) else EncV(x)

    def one(sub):
        c, lab, mk = sub
        name = describe(c, lab)
        o = start(E, c, mk)
        st = E.snap()
        where = E.where(c, "summary")
        pr = E.outcome(lambda: E.I.call(I.getattr(o, "get_params"), [], {}), flat=False)
        if pr.kind != "val":
            E.und(name + ": parameters", pr.msg, rp)
            return
        params = [(k, v) for k, v in I.dict_items(pr.v)]
        r = E.q(o, "summary", printer=False)
        if r.kind == "exc":
            E.viol(name + ": summary", where, "summary(printer=False) raises %s: %s" % (r.exc, r.msg), rn)
            return
        if r.kind != "val":
            E.und(name + ": summary", r.msg, rp)
            return
        text = r.raw
        if any(x is None for x in val.leaves(text)):
            E.viol(name + ": summary", where, "summary(printer=False) returns nothing", rq)
            return
        list_params(name + ": summary parameters", where, text, params)
        pat = TITLES.get(c.name)
        if pat:
            heads = {lit(text_lines(x)[0]) for x in val.leaves(text) if isinstance(x, (str, StrV))}
            bad = [h for h in heads if not re.search(pat, h.lower()) or (c.name in NOT_TITLES and re.search(NOT_TITLES[c.name], h.lower()))]
            if bad:
                E.viol(name + ": title", where, "the summary is headed %r" % bad[0], rt)
            else:
                E.ok(name + ": title", rt)
        # prices
        for side in ("call", "put"):
            f, _ = I.class_attr(c, side)
            if f is None:
                continue
            E.at(st)
            q = E.q(o, side)
            try:
                got = price_text(text, side)
            except SOFT as e:
                E.und("%s: %s price" % (name, side), str(e), rc)
                continue
            kinds = {x if isinstance(x, str) else "" for x in val.leaves(got)}
            if q.kind == "exc":
                if kinds == {"none"}:
                    E.ok("%s: no %s price" % (name, side), rn)
                else:
                    E.viol("%s: no %s price" % (name, side), where, "%s() raises but the summary shows a price" % side, rn)
                continue
            if q.kind != "val" or "?" in kinds:
                E.und("%s: %s price" % (name, side), q.msg, rc)
                continue
            w = price_of_outcome(E, q.raw)
            if "none" in kinds and q.guards:
                # where the price raises the summary may leave it out
                gs = [E.I.decide(g[0]) if isinstance(g[0], bool) else g[0] for g in q.guards]
                ts = [g[1] for g in q.guards]
                miss = val.apply(lambda z, *cs: z == "none" and not any(a == b for a, b in zip(cs, ts)), got, *gs)
                if not any(x is True for x in val.leaves(miss)):
                    kinds.discard("none")
                    got = val.apply(lambda z, y: y if isinstance(z, str) and z == "none" else z, got,
                                    val.apply(lambda z: EncV(I.encode(z)) if isinstance(I.encode(z), tuple) else I.encode(z), w))
            if "none" in kinds:
                E.viol("%s: %s price" % (name, side), where, "the summary has no %s price" % side, rc)
                continue
            digits = []
            try:
                got = val.apply(lambda z: EncV(unround(I, z.x, digits)) if isinstance(z, EncV) else unround(I, z, digits), got)
                want = val.apply(lambda z: EncV(I.encode(z)) if isinstance(I.encode(z), tuple) else I.encode(z), w)
                eq = enc_same(E, got, want)
            except SOFT as e:
                E.und("%s: %s price" % (name, side), str(e), rc)
                continue
            if not eq:
                E.viol("%s: %s price" % (name, side), where, "the value labelled %s is %s, not %s()" % (side, short(got, 120), side), rc)
            elif any(d is not None and d < 2 for d in digits):
                E.viol("%s: %s price" % (name, side), where, "the %s price is rounded to %s digits" % (side, min(digits)), rc)
            else:
                E.ok("%s: %s price" % (name, side), rc)
        # str, repr
        E.at(st)
        s = E.q(o, "__str__")
        if s.kind == "exc":
            E.viol(name + ": str", E.where(c, "__str__"), "str raises %s: %s" % (s.exc, s.msg), rp)
        elif s.kind == "val":
            if E.same(s.v, r.v)[0]:
                E.ok(name + ": str", rp, n=len(params))
            else:
                list_params(name + ": str", E.where(c, "__str__"), s.raw, params)
        else:
            E.und(name + ": str", s.msg, rp)
        E.at(st)
        s = E.q(o, "__repr__")
        if s.kind == "exc":
            E.viol(name + ": repr", E.where(c, "__repr__"), "repr raises %s: %s" % (s.exc, s.msg), rp)
        elif s.kind == "val":
            for leaf in val.leaves(s.raw):
                parts = list(leaf.parts) if isinstance(leaf, StrV) else [leaf]
                whole = lit(parts)
                if not re.match(r"<?(\w+\.)*%s\b" % c.name, whole):
                    E.viol(name + ": repr name", E.where(c, "__repr__"), "repr reads %r" % whole[:60], rt)
                else:
                    E.ok(name + ": repr name", rt)
                toks = []
                for p in parts:
                    if isinstance(p, str):
                        toks += re.findall(r"[^\s,()=]+", p)
                    else:
                        toks.append(p)
                i, miss = 0, []
                for p, v in params:
                    want, enc = literal_of(v), I.encode(v)
                    hit = None
                    for k in range(i, len(toks)):
                        t = toks[k]
                        if isinstance(t, str):
                            if want is not None and t.strip("'\"") == want:
                                hit = k
                                break
                        elif want is None and values_agree(E, shown_value(t), enc):
                            hit = k
                            break
                    if hit is None:
                        miss.append(p)
                    else:
                        i = hit + 1
                if miss:
                    E.viol(name + ": repr parameters", E.where(c, "__repr__"), "repr does not list (in order) %s" % ", ".join(miss), rp)
                else:
                    E.ok(name + ": repr parameters", rp, n=len(params))
        else:
            E.und(name + ": repr", s.msg, rp)
        # printing
        for kw in ({"printer": True}, {}):
            E.at(st)
            n0 = len(I.printed)
            s = E.q(o, "summary", **kw)
            pl = "%s: summary(%s)" % (name, "printer=True" if kw else "")
            new = I.printed[n0:]
            del I.printed[n0:]
            if s.kind == "exc":
                E.viol(pl, where, "raises %s: %s" % (s.exc, s.msg), rq)
            elif s.kind != "val":
                E.und(pl, s.msg, rq)
            elif not new:
                E.viol(pl, where, "nothing is printed", rq)
            else:
                t = I.cat([x[0] for x in new])
                if any(E.same(E.flat(x), r.v)[0] for x in (t, val.apply(chomp, t))):
                    E.ok(pl, rq)
                elif len({repr(sorted(map(repr, x[1].items()))) for x in new}) > 1:
                    E.und(pl, "printed in pieces on different paths", rq)
                else:
                    E.viol(pl, where, "the printed text is not the returned text: %s" % explain_text(E, t, text), rq)
        # without a price
        for exc in ("TypeError", "ValueError", "ZeroDivisionError", "OverflowError"):
            E.at(st)
            hit = [0]

            def hook(I_, f, args, kw, node, exc=exc):
                if isinstance(f, BoundV) and isinstance(f.func, FuncV) and f.func.name in ("call", "put") and f.self_ is o:
                    hit[0] += 1
                    raise AbsRaise(exc, "the price cannot be computed", node, I.loc(node))
                return None
            I.hooks = [hook]
            try:
                s = E.q(o, "summary", printer=False)
            finally:
                I.hooks = []
            pl = "%s: summary when the price raises %s" % (name, exc)
            if s.kind == "exc":
                E.viol(pl, s.where or where, "summary raises %s: %s" % (s.exc, s.msg), rn)
            elif s.kind != "val":
                E.und(pl, s.msg, rn)
            elif not hit[0]:
                E.und(pl, "summary does not obtain the price from call()/put()", rn)
            else:
                list_params(pl, where, s.raw, params)

    subs = list(subjects(E, True, E.thorough, False))
    for c in E.option_classes():
        if c.name in GBS_FAMILY:
            subs.append((c, "7-element arrays", seven(c, E.ctor_params(c)[0])))
    # a missing sigma is allowed wherever the constructor defaults it
    for c in E.option_classes():
        names, d = E.ctor_params(c)
        if "sigma" in names and "sigma" in d and c.name not in GBS_FAMILY:
            subs.append((c, "no sigma", lambda s="", c=c: E.params(c, s, skip=("sigma",))))
    E.parallel(subs, one)


class EncV:
    """an encoded array inside a gated value."""
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, EncV) and nf.arg_eq(self.x, o.x)

    def __hash__(self):
        return 29

    def __repr__(self):
        from ..interp import show_key
        return show_key(self.x)


def price_of_outcome(E, v):
    """a price, or the price inside a documented result dictionary."""
    I = E.I
    def leaf(z):
        if isinstance(z, Ref) and I.rec(z).kind == "dict":
            for k, x in I.dict_items(z):
                if k == "OptionPrice":
                    return x
        return z
    return val.apply(leaf, v)


def enc_same(E, a, b):
    if isinstance(a, RF) and isinstance(b, RF):
        return E.same(a, b)[0]
    if isinstance(a, EncV) and isinstance(b, EncV):
        return values_agree(E, a.x, b.x)
    if isinstance(a, Gam) or isinstance(b, Gam):
        r = val.apply(lambda x, y: enc_same(E, x, y), a, b)
        if all(x is True for x in val.leaves(r)):
            return True
        if any(isinstance(x, EncV) for x in list(val.leaves(a)) + list(val.leaves(b))):
            return False
        return E.same(a, b)[0]
    return a == b


def values_agree(E, a, b):
    """do two encoded values denote the same number or array (up to rounding to >= 2 digits)?"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
            return False
        return all(values_agree(E, x, y) for x, y in zip(a, b))
    if isinstance(a, (RF, Gam)) and isinstance(b, (RF, Gam)):
        if E.same(a, b)[0]:
            return True
        d = []
        x = unround(E.I, a, d)
        return bool(d) and all(k is None or k >= 2 for k in d) and E.same(x, b)[0]
    return a == b


def explain_text(E, a, b):
    xs, ys = list(val.leaves(a)), list(val.leaves(b))
    for x, y in zip(xs, ys):
        if not (x == y):
            return "%s / %s" % (short(x, 150), short(y, 150))
    return "different text"
