"""P10 - JSON networks: C code and reference inference compute the network which the file describes."""
from hypothesis import strategies as st

from pbt import judge as J
from pbt import kjson as K
from pbt.cgen import BuildError, GenError, RunError, run_acetone, scratch
from pbt.engine import Check, Family, Info, Reject, Violation

ALGS = [None, "6loops", *(f"{k}_gemm_{t}" for k in ("indirect", "std") for t in ("nn", "nt", "tn", "tt"))]


@st.composite
def cases(draw, **kw):
    return {"net": draw(K.networks(**kw)), "opt": draw(st.integers(0, 3)) == 0, "bin": draw(st.integers(0, 7)) == 0,
            "alg": draw(st.sampled_from(ALGS)), "path": draw(st.booleans())}


def run(case):
    net = case["net"]
    x = K.samples(net)
    ref, tol = K.reference(net, x)
    if max(tol) > 0.05 * max(1.0, max(float(abs(r).max()) for r in ref)):
        raise Reject("ill conditioned")
    what = K.describe(net)
    with scratch() as d:
        f = d / "model.json"
        K.write(net, f)
        try:
            r = run_acetone(f if case["path"] else str(f), x, d / "code", want_c=True, want_py=True,
                            use_make=case["bin"], bin_dataset=case["bin"], optimization=case["opt"],
                            versions={"Conv2D": case["alg"]} if case["alg"] else None)
        except (GenError, BuildError, RunError) as e:
            raise Violation(f"{type(e).__name__}: {e}\n{what}") from e
    for name, rows in (("C", r.c), ("python", r.py)):
        dif = J.diff(rows, ref, tol)
        if dif:
            raise Violation(f"{name} disagrees with the JSON description: {dif}\n{what}\n{ {k: case[k] for k in ('opt', 'bin', 'alg')} }")
    la = net["layers"]
    return Info([*(x["class"] for x in la), *(f"{x['class']}:{x['activation']}" for x in la if "activation" in x),
                 net["fmt"], net["dtype"], "bin" if case["bin"] else "text", "opt" if case["opt"] else "noopt",
                 f"alg:{case['alg']}"],
                len({float(a) for q in ref for a in q}) > 1, {"network": what, "samples": net["n"]})


fams = [
    Family("chain", lambda: cases(branch=0, hi=8), run, 500),
    Family("graph", lambda: cases(branch=4, lo=2, hi=10), run, 600),
]

CHECK = Check(
    "P10", "JSON networks are computed as their file describes",
    "Sequential and branching networks of the layers documented for the JSON format, drawn with their attributes, in "
    "channels-last and channels-first format, single and double precision, written in the JSON description; C and "
    "python outputs compared with an independent evaluation of the Keras semantics in double precision, within a "
    "tolerance measured by perturbing parameters and samples. Non-trivial: the outputs are not all equal.",
    fams, assumptions=["the evaluator of pbt/kjson.py implements the Keras semantics",
                       "gcc compiles the generated program faithfully"])
