"""Shared machinery of the checks: loading the program under analysis, building symbolic
option objects, asking them questions, comparing answers and collecting obligations."""
import ast
import itertools
import os
import pickle
import select
import signal
import time
import traceback
from . import nf, val, interp, feas
from .nf import RF
from .val import Undecided, AbsRaise, Gam, TRF, num
from .interp import (Interp, Ref, ArrV, FuncV, BoundV, ClassV, ModuleV, ExtV, StrV, OpqV, PyFn, UNBOUND, exc_isa, mknum, size_const)

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

REAL = {"r", "b", "b1", "b2", "rho", "rhoSE", "rhoSF", "rhoEF", "lamb", "gamma"}

# the public classes the properties speak about (vanished anchor => the check cannot answer)
OPTION_CLASSES = ["GBSOption", "BlackScholesOption", "Black76Option", "MiltersenSchwartzOption",
                  "RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption",
                  "CRRBinomialTreeOption", "JRBinomialTreeOption", "TIANBinomialTreeOption", "TrinomialTreeOption",
                  "SpreadApproxOption", "BionomialSpreadAllTypes", "BionomialMaxOption", "BionomialMinOption",
                  "BionomialSpreadOption"]
LATTICES = ["CRRBinomialTreeOption", "JRBinomialTreeOption", "TIANBinomialTreeOption", "TrinomialTreeOption"]
SPREADS = ["BionomialSpreadAllTypes", "BionomialMaxOption", "BionomialMinOption", "BionomialSpreadOption"]
GBS_FAMILY = ["GBSOption", "BlackScholesOption", "Black76Option"]


class Missing(Exception):
    """a public name the property is about is gone."""


class Out:
    """outcome of one question: a value, an exception or undecided."""
    __slots__ = ("kind", "v", "exc", "msg", "where", "raw", "guards")

    def __init__(self, kind, v=None, exc=None, msg="", where=None, raw=None, guards=()):
        self.kind, self.v, self.exc, self.msg, self.where, self.raw, self.guards = kind, v, exc, msg, where, raw, guards

    def __repr__(self):
        if self.kind == "val":
            return short(self.v)
        if self.kind == "exc":
            return "raises %s (%s)" % (self.exc, self.msg)
        return "undecided: %s" % self.msg


def short(v, n=400):
    if isinstance(v, tuple):
        s = "(" + ", ".join(short(z, n) for z in v[:8]) + (", ..." if len(v) > 8 else "") + ")"
    elif isinstance(v, RF):
        s = nf.show(v, 8)
    else:
        s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


SOFT = (Undecided, nf.NFError, ZeroDivisionError, RecursionError, OverflowError)


def item_name(it):
    if isinstance(it, (tuple, list)):
        return " ".join(x for x in map(item_name, it) if x)
    if callable(it) and not isinstance(it, ClassV):
        return ""
    return getattr(it, "name", None) or str(it)


class OutOfTime(BaseException):
    """a worker used up its time; what it found so far counts"""


def _alarm(sig, frame):
    raise OutOfTime


class Env:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.deadline = 600 if tier == "quick" else 86400
        self.t0 = time.time()
        self.obs = []
        self.rules = []
        self.notes = []
        self.extra_branches = self.extra_loops = 0
        self.I = Interp(REPO)
        self.I.load_package()
        self.spec_mod = None
        self._load_spec()
        self.S0 = self.I.st
        self.nid0 = self.I.nid

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---------------------------------------------------------- parallel obligations
    def parallel(self, items, fn, limit=400):
        """run fn(item) for every item in forked workers; obligations are collected in item order."""
        items = list(items)
        if self.thorough:
            limit = max(limit, 3600)
        workers = max(1, min(int(os.environ.get("VF_JOBS", os.cpu_count() or 1)), len(items)))
        if workers == 1:
            for it in items:
                fn(it)
            return
        base = len(self.obs)
        results = {}
        running = {}
        todo = list(range(len(items)))
        while todo or running:
            while todo and len(running) < workers:
                i = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        signal.signal(signal.SIGALRM, _alarm)
                        signal.alarm(int(max(5, min(limit, self.deadline - (time.time() - self.t0)))))
                        try:
                            fn(items[i])
                            err = None
                        except Missing as e:
                            err = ("missing", str(e))
                        except SOFT as e:
                            self.und("analysis of %s" % item_name(items[i]), str(e))
                            err = None
                        except OutOfTime:
                            self.und("analysis of %s" % item_name(items[i]), "not finished in time")
                            err = None
                        except MemoryError:
                            err = ("error", "out of memory")
                        except Exception:
                            err = ("error", traceback.format_exc())
                        signal.alarm(0)
                        I = self.I
                        data = pickle.dumps((self.obs[base:], self.notes, err, I.funcs_seen, I.call_edges, I.calls_resolved,
                                             len(I.branches), len(I.loops), {str(k): str(v) for k, v in I.ext.unmodelled.items()}))
                        with os.fdopen(w, "wb") as f:
                            f.write(data)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                running[r] = (i, pid, [])
            ready, _, _ = select.select(list(running), [], [])
            for r in ready:
                b = os.read(r, 1 << 20)
                i, pid, buf = running[r]
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                results[i] = b"".join(buf)
        for i in range(len(items)):
            if not results.get(i):
                self.und("analysis of %s" % item_name(items[i]), "worker gave no result within %d s" % limit)
                continue
            obs, notes, err, fs, ce, cr, nb, nl, unm = pickle.loads(results[i])
            self.obs += obs
            if err is not None:
                if err[0] == "missing":
                    raise Missing(err[1])
                raise RuntimeError(err[1])
            self.I.funcs_seen |= fs
            self.I.call_edges |= ce
            self.I.calls_resolved += cr
            self.extra_branches += nb
            self.extra_loops += nl
            for k, v in unm.items():
                self.I.ext.unmodelled.setdefault(k, v)

    # ---------------------------------------------------------- spec
    def _load_spec(self):
        I = self.I

        def f1(fn):
            return lambda I, a, k, n: I.elementwise1(fn, a[0])
        I.builtins_extra.update({
            "CND": PyFn("CND", f1(nf.CND)),
            "CBND": PyFn("CBND", lambda I, a, k, n: val.apply(lambda x, y, z: nf.CBND(I.tonum(x), I.tonum(y), I.tonum(z)), *a)),
        })
        p = os.path.join(HERE, "spec", "ref.py")
        I.add_module("spec", p, "spec/ref.py")
        I.modules["spec"].is_pkg = False
        m = I.import_module("spec")
        self.spec_mod = m
        ref = I.rec(m.scope).data.get("cnd_poly")

        def refcnd(x):
            old = I.lemma_on
            I.lemma_on = False
            try:
                return I.call(ref, [x], {})
            finally:
                I.lemma_on = old
        I.refcnd = refcnd

    def spec(self, name, *args, **kw):
        f = self.I.rec(self.spec_mod.scope).data[name]
        return self.I.call(f, list(args), kw)

    def specfn(self, name):
        return self.I.rec(self.spec_mod.scope).data[name]

    # ---------------------------------------------------------- program access
    def cls(self, name):
        c = self.I.find_class(name)
        if c is None or c.module.name.startswith("spec"):
            raise Missing("class %s" % name)
        return c

    def option_classes(self):
        out = [self.cls(n) for n in OPTION_CLASSES]
        base = self.cls("Option")
        names = set(OPTION_CLASSES)
        for m in self.I.modules.values():
            if m.scope is None or m.name.startswith("spec"):
                continue
            for v in self.I.rec(m.scope).data.values():
                if isinstance(v, ClassV) and v is not base and base in v.mro and v.name not in names and not v.name.startswith("_"):
                    if self.is_abstract(v):
                        continue
                    names.add(v.name)
                    out.append(v)
        return out

    def is_abstract(self, c):
        for n in ("call", "get_params"):
            if self.I.class_attr(c, n)[1] is None:
                return True
        v, own = self.I.class_attr(c, "__name__")
        return own is None or own.name == "Option"

    def func(self, name, module=None):
        for m in self.I.modules.values():
            if m.scope is None or m.name.startswith("spec") or (module and m.name != module):
                continue
            v = self.I.rec(m.scope).data.get(name)
            if isinstance(v, FuncV):
                return v
        raise Missing("function %s" % name)

    def ctor_params(self, c):
        f, own = self.I.class_attr(c, "__init__")
        if not isinstance(f, FuncV):
            raise Missing("constructor of %s" % c.name)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]
        d = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        for n, v in zip(pos[len(pos) - len(f.defaults):], f.defaults):
            d[n] = v
        d.update(f.kwdefaults)
        if a.vararg is not None or a.kwarg is not None:
            # forwarding constructor: use the parameters of the next one in the MRO
            for b in c.mro[1:]:
                g, o = self.I.class_attr(b, "__init__")
                if isinstance(g, FuncV) and g is not f:
                    n2, d2 = self.ctor_params(b)
                    for n in n2:
                        if n not in names:
                            names.append(n)
                            if n in d2:
                                d[n] = d2[n]
                    break
        return names, d

    def sym(self, n, suffix="", pos=None):
        if pos is None:
            pos = n not in REAL
        return nf.sym(n + suffix, pos=pos)

    def tconst(self, k):
        return size_const(k)

    def params(self, c, suffix="", n=2, otype="european", option=1, skip=(), **over):
        """symbolic constructor arguments of a class."""
        names, d = self.ctor_params(c)
        out = {}
        for p in names:
            if p in over:
                out[p] = over[p]
            elif p in skip:
                continue
            elif p == "n":
                out[p] = self.tconst(n)
            elif p in ("otype", "type"):
                out[p] = otype
            elif p == "option":
                out[p] = num(option)
            else:
                out[p] = self.sym(p, suffix)
        return out

    def make(self, c, kw, args=()):
        if isinstance(c, str):
            c = self.cls(c)
        return self.I.instantiate(c, list(args), dict(kw))

    # ---------------------------------------------------------- questions
    def fresh(self):
        self.I.st = self.S0.fork()
        self.I.frames = []
        self.I.depth = 0
        self.I.cut = None
        self.I.watermark = 0
        self.I.events.clear()
        self.I.guards.clear()

    def at(self, st):
        self.I.st = st.fork()
        self.I.frames = []
        self.I.depth = 0
        self.I.cut = None

    def snap(self):
        return self.I.st.fork()

    def outcome(self, fn, flat=True):
        I = self.I
        g0 = len(I.guards)
        hooks = list(I.hooks)
        fr, dp = list(I.frames), I.depth
        try:
            v = fn()
            fv = self.flat(v) if flat else v
            return Out("val", fv, raw=v, guards=tuple(I.guards[g0:]))
        except AbsRaise as e:
            return Out("exc", exc=e.exc, msg=e.msg, where=e.where, raw=e.value, guards=tuple(I.guards[g0:]))
        except SOFT as e:
            return Out("und", msg="%s%s" % (type(e).__name__ + ": " if not isinstance(e, Undecided) else "", e))
        finally:
            I.frames, I.depth = fr, dp
            I.hooks = hooks

    def ask(self, o, m, *a, **k):
        I = self.I
        if m in ("__repr__", "__str__"):
            return I.ext.builtin("repr" if m == "__repr__" else "str", [o], {}, None)
        return I.call(I.getattr(o, m), list(a), k)

    def q(self, o, m, *a, **k):
        return self.outcome(lambda: self.ask(o, m, *a, **k))

    def queries(self, c, price=None, skip=("set_param", "copy", "plot")):
        """(label, method, kwargs) for every public question of a class."""
        I = self.I
        names = []
        for k in c.mro:
            for n, v in I.rec(k.attrs_id).data.items():
                if n not in names and isinstance(v, FuncV) and not n.startswith("_") and v.kind is None:
                    names.append(n)
        out = []
        for n in sorted(names):
            if n in skip:
                continue
            f, _ = I.class_attr(c, n)
            if not isinstance(f, FuncV) or f.kind is not None:
                continue
            a = f.node.args
            ps = [x.arg for x in a.args][1:] + [x.arg for x in a.kwonlyargs]
            nreq = len(a.args) - 1 - len(f.defaults)
            opts = []
            ok = True
            for i, p in enumerate(ps):
                if p == "call":
                    opts.append([(p, True), (p, False)])
                elif p == "tree":
                    opts.append([(p, False), (p, True)])
                elif p == "method":
                    opts.append([(p, "analytic"), (p, "fdm")])
                elif p == "printer":
                    opts.append([(p, False)])
                elif p == "price":
                    opts.append([(p, price if price is not None else nf.sym("price"))])
                elif i < nreq:
                    ok = False
            if not ok:
                continue
            for combo in itertools.product(*opts):
                kw = dict(combo)
                out.append(("%s(%s)" % (n, ", ".join("%s=%s" % (k, v if not isinstance(v, RF) else nf.show(v)) for k, v in kw.items())), n, kw))
        out.append(("repr()", "__repr__", {}))
        out.append(("str()", "__str__", {}))
        return out

    # ---------------------------------------------------------- values
    def flat(self, v, seen=(), skip=()):
        """heap-free nested tuple of a value (Gam leaves preserved)."""
        I = self.I
        if isinstance(v, RF) or v is None or isinstance(v, (bool, str, StrV)):
            return v
        if isinstance(v, Gam):
            return val.mkgam(v.xid, v.mask, self.flat(v.t, seen, skip), self.flat(v.f, seen, skip))
        if isinstance(v, tuple):
            return ("tuple",) + tuple(self.flat(z, seen, skip) for z in v)
        if isinstance(v, ArrV):
            return ("array", str(v.shape)) + tuple(self.flat(z, seen, skip) for z in I.nd(v).reshape(-1))
        if isinstance(v, Ref):
            if v.id in seen:
                return ("cycle", len(seen) - seen.index(v.id))
            seen = seen + (v.id,)
            r = I.rec(v)
            if r.kind in ("list", "iter"):
                return ("list",) + tuple(self.flat(z, seen, skip) for z in r.data)
            if r.kind == "dict":
                items = [(repr(k), k, self.flat(kk, seen, skip), self.flat(z, seen, skip)) for k, (kk, z) in r.data.items()]
                items.sort(key=lambda t: t[0])
                return ("dict",) + tuple((a, b) for _, _, a, b in items)
            if r.kind == "set":
                return ("set",) + tuple(sorted((repr(k) for k in r.data)))
            if r.kind == "obj":
                return ("obj", r.meta.name) + tuple((k, self.flat(z, seen, skip)) for k, z in sorted(r.data.items()) if k not in skip)
            if r.kind == "ext":
                return ("ext", str(r.meta)) + tuple((k, self.flat(z, seen, skip)) for k, z in sorted(r.data.items()) if not k.startswith("@"))
            if r.kind == "poison":
                raise Undecided("value merged from incompatible shapes")
            return (r.kind,)
        if isinstance(v, BoundV):
            return ("bound", v.func.qual() if isinstance(v.func, FuncV) else repr(v.func), self.flat(v.self_, seen, skip))
        if v is UNBOUND:
            return ("unbound",)
        return I.encode(v, seen)

    def deref(self, v):
        """raw (shallow) python view of dict/list results."""
        r = self.I.rec(v)
        if r.kind == "dict":
            return {k if not isinstance(k, tuple) else k: z for k, z in r.data.values()}
        return list(r.data)

    def same(self, a, b, filt=False):
        """compare two flat values; (True, None) / (False, explanation) / (None, reason) if filtered as spurious."""
        a, b = norm(a), norm(b)
        ok, why = val.equal(a, b, leaf_eq=leaf_eq)
        if ok:
            return True, None
        signs, x, y = why
        if filt and val.equal_pos(a, b, leaf_eq):
            return True, None
        if filt and feas.spurious(a, b, leaf_eq):
            return None, "the algebra does not see that the two agree: " + explain(signs, x, y)[:400]
        return False, explain(signs, x, y)

    def cmp_out(self, a, b):
        """compare outcomes: True / False / None(undecided), explanation"""
        if a.kind == "und" or b.kind == "und":
            if a.kind == "und" and b.kind == "und" and a.msg == b.msg:
                return None, a.msg
            return None, a.msg or b.msg
        if a.kind == "exc" or b.kind == "exc":
            if a.kind == b.kind:
                return (True, None) if a.exc == b.exc else (False, "%r instead of %r" % (a, b))
            return False, "%r instead of %r" % (a, b)
        try:
            return self.same(a.v, b.v, True)
        except SOFT as e:
            return None, str(e)

    # ---------------------------------------------------------- obligations
    def ok(self, name, rule=None, n=1):
        self.obs.append(dict(name=name, status="ok", rule=rule))

    def viol(self, name, where, detail, rule=None):
        self.obs.append(dict(name=name, status="violation", where=where, detail=detail, rule=rule))

    def und(self, name, reason, rule=None):
        self.obs.append(dict(name=name, status="undecided", detail=reason, rule=rule))

    def check_eq(self, name, got, want, where, rule=None):
        """obligation: outcome `got` equals outcome/flat `want`"""
        if not isinstance(want, Out):
            want = Out("val", want)
        r, why = self.cmp_out(got, want)
        if r is True:
            self.ok(name, rule)
        elif r is None:
            self.und(name, why, rule)
        else:
            w = got.where if got.kind == "exc" and got.where else where
            self.viol(name, w, why, rule)
            if got.kind == "exc":
                self.obs[-1]["raised"] = "refused" if got.raw is not None else "fails"
        return r

    def where(self, c, meth):
        """file:line of the method that class c uses"""
        f, own = self.I.class_attr(self.cls(c) if isinstance(c, str) else c, meth)
        if isinstance(f, FuncV):
            return "%s in %s" % (f.where(), f.qual())
        return self.cls(c).where() if isinstance(c, str) else c.where()

    # ---------------------------------------------------------- specialised branches
    def uncovered(self):
        """size dependent branches that always went one way: [(key, arm never taken, values reaching it or None)]"""
        out = []
        for key, (cnt, provs) in sorted(self.I.spec_branches.items(), key=lambda t: str(t[0])):
            for arm in (True, False):
                if cnt[arm] or not provs:
                    continue
                reach, unknown = set(), False
                for pr in provs:
                    if pr is None:
                        unknown = True
                        continue
                    kind, uid, lo, fn = pr
                    for v in SIZES:
                        if v < lo:
                            continue
                        try:
                            if bool(fn(v)) == arm:
                                reach.add((kind, v))
                        except (ZeroDivisionError, TypeError, OverflowError, ValueError):
                            pass
                if reach:
                    out.append((key, arm, reach))
                elif unknown:
                    out.append((key, arm, None))
        return out

    def explore(self, run, depth=2, limit=12):
        """run(); then, for every branch on the size that all analysed sizes decide the same way although another size
        decides it differently, run() again with the other arm taken. Obligations that only then fail are violations
        (for the sizes that take the arm); undecided if no size is known to."""
        I = self.I
        done = set()

        def go(force, reach, level):
            I.spec_branches.clear()
            I.force = dict(force)
            base = len(self.obs)
            try:
                run()
            finally:
                I.force = {}
            if force:
                self.obs[base:] = self.forced_result(self.obs[base:], force, reach)
            if level >= depth:
                return
            todo = self.uncovered()
            for key, arm, why in todo:
                r2 = meet(reach, why)
                if r2 is not None and not r2 and any(k == "n" for k, _ in (reach or ())):
                    continue
                modes = [arm] + ([("late", arm)] if why and all(k == "i" for k, _ in why) else [])
                for m in modes:
                    f = {**force, key: m}
                    tag = frozenset(f.items())
                    if tag in done or key in force or len(done) >= limit:
                        continue
                    done.add(tag)
                    go(f, r2, level + 1)
        go({}, {}, 0)

    def forced_result(self, obs, force, reach):
        tag = "with " + " and ".join("the test at %s %s" % (k[0], "true" if v else "false") for k, v in ((k, v[1] if isinstance(v, tuple) else v) for k, v in force.items()))
        if reach:
            k, v = min(reach, key=lambda t: t[1])
            tag += " (as for %s = %d)" % ("size" if k == "n" else "loop index", v)
        out = []
        for o in obs:
            o = dict(o, name=o["name"] + " " + tag)
            if o["status"] == "violation":
                if o.get("raised") == "fails":
                    o = dict(name=o["name"], status="undecided", rule=o.get("rule"),
                             detail="fails on an arm no analysed size takes: %s" % str(o["detail"])[:300])
                elif o.get("raised"):
                    o = dict(name=o["name"], status="ok", rule=o.get("rule"))
                elif not reach:
                    o = dict(name=o["name"], status="undecided", rule=o.get("rule"),
                             detail="differs on an arm no analysed size takes: %s" % str(o["detail"])[:300])
            elif o["status"] == "undecided" and "merged from incompatible" not in str(o["detail"]):
                pass
            out.append(o)
        return out


SIZES = list(range(0, 400)) + [500, 512, 600, 750, 999, 1000, 1001, 1024, 1500, 2000, 2047, 2048, 2049, 2500, 3000, 4096, 5000, 5001, 9999,
                               10000, 10001, 20000, 50000, 100000, 100001, 1000000, 1000001]


def meet(a, b):
    """sizes that take all forced arms."""
    if a is None or b is None:
        return None
    if not a:
        return b
    ka, kb = {k for k, _ in a}, {k for k, _ in b}
    if ka != kb:
        return b if "n" not in kb else a
    both = a & b
    return both


def norm(v):
    return v


def leaf_eq(a, b):
    if val.val_eq(a, b):
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(leaf_eq(x, y) for x, y in zip(a, b))
    # 0-d / python number / bool distinctions carry no meaning for a caller
    a1, b1 = scalarise(a), scalarise(b)
    if (a1 is not a or b1 is not b) and val.val_eq(a1, b1):
        return True
    return False


def scalarise(a):
    if isinstance(a, tuple) and len(a) == 3 and a[0] == "array" and a[1] == "()":
        a = a[2]
    if isinstance(a, bool):
        return nf.rf_const(int(a))
    return a


def explain(signs, x, y):
    p = path_diff(x, y)
    w = val.describe_signs(signs)
    if p is not None:
        path, a, b = p
        s = "%s: %s instead of %s" % ("/".join(path) if path else "value", short(a, 700), short(b, 700))
    else:
        s = "%s instead of %s" % (short(x, 700), short(y, 700))
    if w != "always":
        s += " [when %s]" % (w if len(w) < 500 else w[:500] + "...")
    return s


def path_diff(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        for i, (a, b) in enumerate(zip(x, y)):
            if not leaf_eq(a, b):
                if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                    p, q, r = path_diff(a, b)
                    lab = x[0] if isinstance(x[0], str) and i else str(i)
                    if isinstance(a, tuple) and a and isinstance(a[0], str) and len(a) == 2:
                        lab = a[0]
                    return [lab] + p, q, r
                lab = x[0] if len(x) == 2 and isinstance(x[0], str) and i == 1 else str(i)
                return [lab], a, b
    return [], x, y


# ---------------------------------------------------------------- option variants

def arr_params(E, c, names, cnt=3, suffix="", zero_b=True):
    """kwargs in which the given parameters are arrays of cnt symbols."""
    kw = E.params(c, suffix)
    for p in names:
        xs = [E.sym(p + "_%d" % i, suffix, pos=p not in REAL) for i in range(cnt)]
        if p == "b" and zero_b:
            xs[0] = nf.rf_const(0)
        kw[p] = E.I.arr_from(xs, (cnt,))
    return kw


def variants(E, c, arrays=True, full=False, n=2):
    """[(label, maker)] where maker(suffix) -> kwargs; the constructor's discrete choices are enumerated."""
    names, d = E.ctor_params(c)
    out = []
    tp = "type" if "type" in names else "otype" if "otype" in names else None
    if tp:
        for st in ("european", "american"):
            if "option" in names:
                for k in range(1, 10):
                    if not full and k not in (1, 4, 8):
                        continue
                    out.append(("%s, payoff %d" % (st, k), lambda s="", st=st, k=k: E.params(c, s, n=n, otype=st, option=k)))
            else:
                out.append((st, lambda s="", st=st: E.params(c, s, n=n, otype=st)))
        return out
    out.append(("", lambda s="": E.params(c, s)))
    if "sigma" in names and c.name in GBS_FAMILY:
        out.append(("no sigma", lambda s="": E.params(c, s, skip=("sigma",))))
    if arrays and c.name in GBS_FAMILY + ["MiltersenSchwartzOption"]:
        out.append(("arrays", lambda s="": arr_params(E, c, names, 2, s)))
    return out


def describe(c, lab):
    return "%s(%s)" % (c.name, lab) if lab else c.name
