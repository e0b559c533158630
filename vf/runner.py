"""Command line of the checks: python3-vt -m vf check <id> [--tier quick|thorough]"""
import importlib
import json
import os
import sys
import time
import traceback
from . import nf
from .env import Env, Missing, REPO

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")

MODULES = {
    "state": ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C26"),
    "greeks": ("C10", "C11", "C12", "C16"),
    "closed": ("C13", "C14", "C15", "C24", "C27"),
    "lattice": ("C17", "C18", "C19", "C20", "C28"),
    "sim": ("C21", "C22", "C23", "C25"),
    "misc": ("C29", "C30", "C31", "C32", "C33"),
}
MODOF = {p: m for m, ps in MODULES.items() for p in ps}

ASSUMPTIONS = [
    "numpy, scipy, numdifftools and the standard library behave as modelled in vf/ext.py",
    "arithmetic is read as exact real arithmetic; floating-point rounding is outside every claim",
    "parameters documented as positive (prices, strikes, times, volatilities) are positive, the others real, unless the property says otherwise",
]


def known(pid):
    """findings recorded for this property: [(key, text)]"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key = rest.split(" :: ")[0]
                out.append((key, rest))
    return out


def run(pid, tier):
    sys.setrecursionlimit(20000)
    t0 = time.time()
    E = None
    try:
        E = Env(pid, tier)
        mod = importlib.import_module("vf.checks." + MODOF[pid])
        getattr(mod, pid.lower())(E)
    except Missing as e:
        print("ANALYSIS-BROKEN property=%s %s is gone from the package" % (pid, e))
        return 2
    viol = [o for o in E.obs if o["status"] == "violation"]
    und = [o for o in E.obs if o["status"] == "undecided"]
    ok = [o for o in E.obs if o["status"] == "ok"]
    kf = known(pid)
    listed, new = [], []
    for v in viol:
        hit = [t for k, t in kf if k == v["name"]]
        (listed if hit else new).append(v)
    os.makedirs(EVID, exist_ok=True)
    rules = {}
    for o in E.obs:
        r = rules.setdefault(o.get("rule") or "equality", {"obligations": 0, "decided": 0, "undecided": 0, "violated": 0})
        r["obligations"] += 1
        r["decided" if o["status"] == "ok" else "undecided" if o["status"] == "undecided" else "violated"] += 1
    funcs = sorted("%s:%s" % f for f in E.I.funcs_seen if not f[0].startswith("spec"))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the package's current source (%s): every listed function is evaluated over symbolic "
                           "parameters in an algebraic value-numbering domain, joining both arms of every undecided branch, and the resulting "
                           "value graphs and heap effects are compared with the rule. No code of the package is executed." % REPO,
            "obligations_total": len(E.obs), "decided_holding": len(ok), "undecided": len(und), "violated": len(viol),
            "rules": rules,
            "functions_analysed": len(funcs), "functions": funcs[:400],
            "call_sites_resolved": E.I.calls_resolved,
            "call_graph_edges": len(E.I.call_edges),
            "branches_seen": len(E.I.branches) + E.extra_branches,
            "loops_summarised": len(E.I.loops) + E.extra_loops,
            "library_calls_without_model": {str(k): str(v) for k, v in list(E.I.ext.unmodelled.items())[:30]},
            "samples": [o["name"] for o in ok[:5]] + [o["name"] for o in ok[-3:]],
            "undecided_obligations": [dict(name=o["name"], reason=str(o["detail"])[:300]) for o in und[:60]],
            "notes": E.notes,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("property=%s tier=%s obligations=%d holding=%d undecided=%d violated=%d functions=%d call_sites=%d wall=%.1fs" % (
        pid, tier, len(E.obs), len(ok), len(und), len(viol), len(funcs), E.I.calls_resolved, time.time() - t0))
    for o in und[:20]:
        print("  undecided: %s: %s" % (o["name"], str(o["detail"])[:200]))
    for v in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, v["name"]))
    if new:
        rp = os.path.join("evidence", "%s.replay.json" % pid)
        with open(os.path.join(ROOT, rp), "w") as f:
            json.dump({"property": pid, "how": "python3-vt -m vf check %s --tier %s" % (pid, tier), "violations": [
                {k: str(x) for k, x in v.items()} for v in new]}, f, indent=1)
        for v in new[:8]:
            print("  %s" % v["name"])
            print("    at   : %s" % v["where"])
            print("    rule : %s" % (v.get("rule") or "equality"))
            print("    found: %s" % str(v["detail"])[:900])
        if len(new) > 8:
            print("  ... and %d more" % (len(new) - 8))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if not ok:
        print("ANALYSIS-BROKEN property=%s no obligation could be decided" % pid)
        return 2
    return 0


def main(argv):
    if len(argv) >= 2 and argv[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in argv:
            tier = argv[argv.index("--tier") + 1]
        ids = list(MODOF) if argv[1] == "all" else argv[1].split(",")
        rc = 0
        for pid in sorted(ids):
            try:
                r = run(pid, tier)
            except Exception:
                traceback.print_exc()
                print("ANALYSIS-BROKEN property=%s" % pid)
                r = 2
            sys.stdout.flush()
            rc = max(rc, r)
        return rc
    print("usage: python3-vt -m vf check <id>|all [--tier quick|thorough]")
    return 2
