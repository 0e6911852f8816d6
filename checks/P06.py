"""P06 - the generated code is memory safe and free of undefined behaviour."""
from hypothesis import strategies as st

from pbt import families as F
from pbt import judge as J
from pbt import onnxspec as S
from pbt.cgen import BuildError, RunError, run_sanitized, scratch
from pbt.engine import Check, Family, Info, Violation
from checks.P01 import QUICK
from checks.P03 import ALGS, one_conv


@st.composite
def wrap(draw, inner, versions=None):
    c = draw(inner)
    if "spec" not in c:
        c = {"spec": c, "versions": versions or {}}
    c["tool"] = draw(st.sampled_from(["asan", "asan", "msan"]))
    c["level"] = draw(st.sampled_from(["-O0", "-O1", "-O2"]))
    c["opt"] = draw(st.integers(0, 3)) == 0
    return c


def run(case):
    spec = case["spec"]
    model = S.build_model(spec)
    x = S.dataset(spec)
    import onnx
    m2 = onnx.ModelProto()
    m2.CopyFrom(model)
    with scratch() as d:
        r = F.safe_run(spec, m2, x, d, "ACETONE", want_c=True, want_py=False, optimization=case["opt"],
                       versions=dict(case["versions"]))
        try:
            rows = run_sanitized(d, case["tool"], opt=case["level"])
        except BuildError as e:
            raise RuntimeError(f"sanitized build: {e}") from e
        except RunError as e:
            raise Violation(f"{case['tool']} report: {e}\nmodel: {J.describe(spec)}; {case['versions']}") from e
    # the instrumented program computes the same function (a few ulps apart: other optimization level)
    tol = [1e-5 * max([1.0, *(abs(v) for v in q)]) for q in r.c]
    if all(abs(v) < 1e30 for q in r.c for v in q) and F.nontrivial(r.c):
        if len(rows) != len(r.c) or any(len(a) != len(b) for a, b in zip(rows, r.c)):
            raise Violation(f"instrumented program prints another number of values\nmodel: {J.describe(spec)}")
    del tol
    return Info([*F.labels_of(spec), case["tool"], case["level"], *(f"alg:{v}" for v in case["versions"].values())],
                len(r.c) > 0 and len(r.c[0]) > 0, F.sample(spec))


D = ("float32", "float32", "float64")
fams = [Family(op, (lambda op=op: wrap(F.single_op(op, pre=True, opts={"groups": True} if op == "conv" else None,
                                                   dtypes=D))), run, max(12, n // 2)) for op, n in QUICK.items()]
fams += [Family("alg_" + a, (lambda a=a: wrap(one_conv(a))), run, 24) for a in ALGS if a != "6loops"]
fams.append(Family("graph", lambda: wrap(F.chain(2, 9, branch=3, multi=("binop", "concat", "matmul"), dtypes=D,
                                                 opts={"conv": {"groups": True}})), run, 150))

CHECK = Check(
    "P06", "Generated code is memory safe and free of undefined behaviour",
    "One model per case (each operator, each convolution algorithm, graphs of 2-9 operators; single and double "
    "precision, optimization on or off, 1-3 samples); the generated program is compiled with AddressSanitizer and "
    "UndefinedBehaviorSanitizer (the padding after every buffer of the contexts poisoned, so that overflows inside "
    "a context are seen) or with MemorySanitizer, at -O0, -O1 or -O2, and run: any report is a violation. "
    "Non-trivial: the program produced its outputs.",
    fams,
    assumptions=["the sanitizers only see the paths which the generated samples execute",
                 "an overflow which lands exactly inside another buffer of the context is only seen as such by "
                 "UBSan's bounds check"])
