"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]

AI = "abstract interpretation of the source (algebraic value numbering, joined branches)"
TECH = {
    "C01": AI + ": heap-effect analysis and before/after value-graph comparison",
    "C02": AI + ": ownership/effect analysis of caller-owned objects",
    "C03": AI + ": interference analysis over shared heap objects plus a random/clock/environment source lint",
    "C04": AI + ": dataflow from constructor parameters to get_params",
    "C05": AI + ": heap equivalence of set_param and reconstruction",
    "C06": AI + ": exception-effect analysis of constructors",
    "C07": AI + ": array-element versus scalar value graphs",
    "C08": AI + ": exception-effect analysis without sigma",
    "C09": AI + ": exception-effect analysis over selector values",
    "C26": AI + ": string dataflow",
    "C10": AI + ": derivative nodes compared with the class's own price graph",
    "C11": AI + ": value-graph equality of dictionary entries and methods",
    "C12": AI + ": exact symbolic differentiation of the price graph",
    "C13": AI + ": algebraic normal form of call minus put",
    "C14": AI + ": algebraic normal form against the published formula",
    "C15": AI + ": loop summaries and value graphs against the published structure",
    "C16": AI + ": root-solver nodes compared with the class's own price graph",
    "C17": AI + ": lattice value graphs against reference roll-back",
    "C18": AI + ": lattice value graphs with exercise against reference roll-back",
    "C19": AI + ": payoff value graphs against the documented table",
    "C20": AI + ": two-asset lattice value graphs against reference roll-back",
    "C28": AI + ": returned tree matrices against reference roll-back",
    "C21": AI + ": dataflow from innovations to loop prices with opaque stubs",
    "C22": AI + ": path and payoff value graphs against the documented formula",
    "C23": AI + ": loop-exit and shape analysis of the innovation generator",
    "C25": AI + ": recursion value graphs against the model recursion",
    "C24": AI + ": integrand value graphs against the model's inversion formula",
    "C29": AI + ": number-kind (machine integer / decimal) propagation through every query, compared value graph by value graph",
    "C30": AI + ": dataflow from the optimiser's answer to the reported entries",
    "C31": AI + ": recorded drawing calls compared with the tree's own value graph",
    "C32": AI + ": effect analysis (printing, drawing, process-wide state)",
    "C33": AI + ": definedness of value graphs at special arguments",
    "C27": AI + ": case-complete value graphs of the distribution functions",
}
READY = open(os.path.join(ROOT, "tools", "ready.txt")).read().split()
NA = {
    "N01": "convergence rates quantify over runtime error magnitudes; no static argument in reach bounds them (the structural causes are decided by C17-C20 and C21-C23)",
    "N02": "termination of Newton/bisection depends on runtime magnitudes over all real parameters; no ranking function is available to a static analysis in reach (the exit conditions are decided by C15)",
    "N03": "numerical accuracy of numdifftools differences is a floating-point magnitude question; C10 decides that the right function is differentiated at the right point",
    "N04": "statistical estimation quality and optimiser convergence are runtime quantities; C25 decides the likelihood and the simulated recursion",
    "N05": "a statistical property of sampled sequences; C21-C23 decide the estimator's structure",
    "N07": "a bound on approximation error of polynomial/quadrature approximations; needs interval numerics on runtime values, not source analysis; C27 decides the formulas and identities",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in READY:
        cmd = "python3-vt -m vf check %s --tier " % i
        checks.append({
            "property": i, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
            "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "other",
            "level_note": "Static: the package's current source is abstractly interpreted over symbolic parameters (never executed); each obligation is an "
                          "equality/effect fact valid for all real parameter values of the stated domain, for the enumerated discrete choices"
                          + (" and step counts" if i in ("C17", "C18", "C20", "C28", "C31") else "") + ". Exact real arithmetic; library calls by model."})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3-vt -c \"import vf.runner\"", "checks": checks, "not_applicable": na,
     "notes": "All checks share one engine (vf/); see DESIGN.md. No hooks in /repo: the analysis reads the source."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
