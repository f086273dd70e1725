"""Fills the generated parts of DESIGN.md from DESIGN.in.md."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks.bounds import BOUNDS  # noqa: E402

HOW = {
    "C01": "Apply each gate, also an operator whose entries are all symbolic, to a symbolic state; compare every amplitude with index arithmetic on the state (ref.apply).",
    "C02": "Compare each entry of the reported matrix, dagger and jacobian with the documented closed form; the derivative is the polynomial derivative of the matrix, group law and unitarity follow from trigonometric identities given to z3.",
    "C03": "Symbolic rho through the real code; compare with U rho U^dagger built from the reference matrix of the circuit.",
    "C04": "Compare with the documented Kraus sum on the attached qubit; trace and Hermiticity of the outcome are separate obligations; completeness of the Kraus operators for symbolic probabilities (square roots as atoms).",
    "C05": "The probabilities are unconstrained reals; the constructor's comparisons become path conditions. On each path `raises` must equal the 0/1 formula of admissibility, so a wrong boundary is a satisfiable query.",
    "C06": "Composition of reference maps in the listed order, compared entrywise.",
    "C07": "Reference composition of the listed operations, for every way of building and running the sequence, with a given state and without one.",
    "C08": "Qubit indices are symbolic integers; every equality pattern is a path. The regrouped list must be a permutation and have the same action on a symbolic state; merged operators must multiply to the same matrix.",
    "C09": "Matrix returned for symbolic angles compared with the reference matrix on the (sorted) support and multiplied on a symbolic state; too small supports must raise.",
    "C10": "Reference linear combination, random nested expressions with symbolic factors.",
    "C11": "Reference quadratic form or trace; order and number of the results; refusal of invalid modes and shots.",
    "C12": "As C01, C09, C11, C14 on BCOO objects whose stored data are symbolic.",
    "C13": "Structure of the converted object compared attribute by attribute; action compared on a symbolic state.",
    "C14": "jax's own derivative of the real code runs symbolically; compared with the polynomial derivative of the reference.",
    "C15": "As C14 with the adjoint rule; also the single-observable function, agreement with the automatic mode, refusal of density matrices.",
    "C16": "As C14 with the shift rule (both the custom jvp and the direct backward function).",
    "C17": "Every outcome of the symbolic draws is a path; on it the product of the probabilities handed to the sampler must equal the product of the Born probabilities of the counted bitstrings, as polynomials in the state.",
    "C18": "The estimate is a polynomial in the indicator variables of the draws; its mean over the handed distributions must equal the exact expectation; each outcome must lie within the spectrum; second moment for the number of shots.",
    "C19": "Symbolic values under seeded dictionaries; circuits chosen by symbolic integers; results, names, counts; missing names must raise KeyError; ansatz layout.",
    "C20": "The compiled, batched, scanned or unflattened computation runs symbolically and must equal the reference of the plain one.",
    "C21": "See the treatment of the matrix exponential above; placement, order, controls, time and Hamiltonian lookups are exact; norm preservation and addition of times for the exactly evaluated families.",
    "C22": "Constructors against their definition for symbolic bits; overlap, probabilities, density matrix for symbolic amplitudes; decisions of the predicates on normalised, scaled, phase-shifted and rotated symbolic states.",
    "C23": "Histories: a first call, one (two) calls chosen by a symbolic integer from a menu of 29 public computations, the first again; after each call the result must equal its own reference and every argument its snapshot.",
    "C24": "Targets and controls are symbolic integers: every coincidence pattern the code's sorting and set operations distinguish is a path. The reported eigenvalues must annihilate the symbolic matrix (product of U(theta) - e^{-i theta l/2}) and give the traces of its powers as trigonometric polynomials; the two-term rule is compared with the exact derivative for a symbolic state and observable; equality of two objects that hold symbolic integers must coincide with the equality of the integers, and equal objects must act equally.",
}


def main():
    t = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
    rows = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        rows.append(f"**{p['id']} {p['title']}.** {HOW[p['id']]}\n*Bounds:* {BOUNDS[p['id']]}\n")
    fixes = sum(x.startswith("fixed:") for x in open(os.path.join(HERE, "known_findings.txt")))
    bugs = ["## Planted bugs", "", "`seeded/<id>`; each passes the existing tests and is detected, or not, by:", "",
            "| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
    res = {}
    rf = os.path.join(HERE, "tools", "bug_results.json")
    if os.path.exists(rf):
        res = json.load(open(rf))
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        b = os.path.basename(os.path.dirname(d))
        bugs.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {', '.join(res.get(b, [])) or 'not run'} |")
    t = t.replace("%%PROPS%%", "\n".join(rows)).replace("%%NFIX%%", str(fixes)).replace("%%BUGS%%", "\n".join(bugs))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(t)


main()
