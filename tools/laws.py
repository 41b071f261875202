#!/usr/bin/env python3-vt
"""laws.py: every law of linear algebra in pv/la.py is proved in Lean, in the interpretation of lean/Laws.lean.

The statement of each law is translated from the z3 formula the verifier uses; nothing is copied by hand.
Exit 0 and a line per law when Lean accepts all of them without sorry and without axioms of its own."""
import os, sys, re, subprocess, tempfile, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "pv"))
import z3
import la

SORT = {str(la.IntS): "ℤ", str(la.RealS): "ℝ", str(la.Vec): "Vec", str(la.Mat): "Mat", str(la.IVec): "ℤ → ℤ",
        str(z3.ArraySort(la.IntS, la.BoolS)): "ℤ → Prop"}
OPS = {z3.Z3_OP_EQ: "=", z3.Z3_OP_ADD: "+", z3.Z3_OP_SUB: "-", z3.Z3_OP_MUL: "*", z3.Z3_OP_LE: "≤", z3.Z3_OP_LT: "<",
       z3.Z3_OP_AND: "∧", z3.Z3_OP_OR: "∨", z3.Z3_OP_IMPLIES: "→"}


def lean(e, names):
    if z3.is_var(e):
        return names[-1 - z3.get_var_index(e)]
    if z3.is_quantifier(e):
        vs = [f"{e.var_name(i)}{len(names)}" for i in range(e.num_vars())]
        b = " ".join(f"({v} : {SORT[str(e.var_sort(i))]})" for i, v in enumerate(vs))
        return f"({'∀' if e.is_forall() else '∃'} {b}, {lean(e.body(), names + vs)})"
    if z3.is_int_value(e) or z3.is_rational_value(e):
        return f"({e} : {SORT[str(e.sort())]})"
    k = e.decl().kind()
    a = [lean(c, names) for c in e.children()]
    if k == z3.Z3_OP_SELECT or k == z3.Z3_OP_UNINTERPRETED:
        if k == z3.Z3_OP_UNINTERPRETED:
            a = [e.decl().name()] + a
        return a[0] if len(a) == 1 else "(" + " ".join(a) + ")"
    if k == z3.Z3_OP_ITE:
        return f"(if {a[0]} then {a[1]} else {a[2]})"
    if k == z3.Z3_OP_NOT:
        return f"(¬ {a[0]})"
    if k == z3.Z3_OP_DISTINCT and len(a) == 2:
        return f"(¬ {a[0]} = {a[1]})"
    if k == z3.Z3_OP_UMINUS:
        return f"(-{a[0]})"
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        return f"({a[1]} {'≤' if k == z3.Z3_OP_GE else '<'} {a[0]})"
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        return "(" + f" {OPS[k]} ".join(a) + ")"
    return f"({a[0]} {OPS[k]} {a[1]})" if len(a) == 2 else "(" + f" {OPS[k]} ".join(a) + ")"


def qid(f):
    """The name of a law: the qid of its first quantifier."""
    if z3.is_quantifier(f):
        return f.qid().removeprefix("la_")
    return qid(f.children()[0])


def statements():
    return [("p_" + qid(f), name, lean(f, [])) for name, _, f in la.LAWS] + \
        [("i_" + n, L.text, lean(la.closed(n), [])) for n, L in la.INST.items()]


def main():
    src = open(os.path.join(HERE, "lean", "Laws.lean")).read()
    tail = ["", "noncomputable section", "open Classical", "namespace PV"]
    ls = statements()
    for q, name, st in ls:
        tail += [f"/-- {name} -/", f"theorem law_{q} : {st} := by first | exact {q} | (intros; exact {q} _ _ (by assumption))"]
    tail += ["end PV", "end"] + [f"#print axioms PV.law_{q}" for q, _, _ in ls]
    if os.environ.get("PV_DUMP"):
        open(os.environ["PV_DUMP"], "w").write(src + "\n".join(tail) + "\n")
    facts = open(os.path.join(HERE, "lean", "Facts.lean")).read()
    fs = re.findall(r"^theorem (\w+)", facts, re.M)
    out, rc = "", 0
    with tempfile.TemporaryDirectory() as tmp:
        for name, text in (("Laws", src + "\n".join(tail)), ("Facts", facts + "\n".join(f"#print axioms PVFacts.{x}" for x in fs))):
            f = os.path.join(tmp, name + ".lean")
            open(f, "w").write(text + "\n")
            p = subprocess.run(["lean", "-j4", f], cwd=tmp, capture_output=True, text=True)
            out, rc = out + p.stdout + p.stderr, rc or p.returncode
    bad, n = 0, 0
    for q, name in [("PV.law_" + q, name) for q, name, _ in ls] + [("PVFacts." + x, x) for x in fs]:
        m = re.search(rf"'{re.escape(q)}' (?:depends on axioms: \[([^\]]*)\]|does not depend)", out)
        ok = bool(m) and not set(re.split(r"[,\s]+", (m.group(1) or "").strip())) - {"", "propext", "Classical.choice", "Quot.sound"}
        bad, n = bad + (not ok), n + 1
        if not ok or "-q" not in sys.argv:
            print(("proved " if ok else "NOT PROVED ") + name)
    if bad or rc:
        print(out[:3000])
    print(f"{n - bad} of {n} laws and facts proved in Lean")
    return 1 if bad or rc else 0


if __name__ == "__main__":
    sys.exit(main())
