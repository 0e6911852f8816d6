"""P07 - the inference of a sample depends on that sample only, whatever ran before or runs meanwhile."""
import random
import struct

import numpy as np
from hypothesis import strategies as st

from pbt import families as F
from pbt import judge as J
from pbt import nnet as N
from pbt import onnxspec as S
from pbt.engine import VERIF
from pbt.cgen import BuildError, GenError, RunError, parse_text, quiet, run_acetone, run_program, scratch, sh
from pbt.engine import Check, Family, Info, Violation

OPS = tuple(o for o in F.CHAIN_OPS)
ALGS = ["6loops", "indirect_gemm_nn", "std_gemm_nn", "std_gemm_tt", "std_gemm_nt"]


@st.composite
def cases(draw, sizes):
    n = draw(st.sampled_from(sizes))
    spec = draw(F.chain(1, 5, unary=OPS, branch=draw(st.sampled_from([0, 3])), n=n,
                        dtypes=("float32", "float32", "float64")))
    return {"spec": spec, "seed": draw(st.integers(0, 10**6)), "alg": draw(st.sampled_from(ALGS)),
            "threads": draw(st.sampled_from([0, 2, 4, 7])), "tsan": draw(st.integers(0, 3)) == 0,
            "opt": draw(st.booleans())}


def plan_of(case, n):
    """Random history: runs in any order and on any context, contexts filled with garbage or copied."""
    rng = random.Random(case["seed"])
    p, runs = [], []
    order = list(range(n)) + [rng.randrange(n) for _ in range(min(n, 8))]
    rng.shuffle(order)
    for s in order:
        c = rng.choice([0, 0, 0, 1, 2, 31])
        k = rng.random()
        if k < 0.25:
            p.append((1, c, rng.choice([0xFF, 0x41, 0x00, 0xC2])))
        elif k < 0.35:
            c2 = rng.choice([1, 2, 31])
            if c2 != c:
                p.append((3, c2, c))
        p.append((0, s, c))
        runs.append(s)
    if case["threads"]:
        p.append((2, case["threads"], 0))
        runs.extend(range(n))
    return p, runs


def compile_driver(d, dt, tsan):
    ctype = "float" if dt == "float32" else "double"
    flags = ["-fsanitize=thread", "-g"] if tsan else []
    srcs = ["inference.c", "parameters.c", "global_vars.c"]
    cmd = ["gcc", "-O1", "-w", "-ffp-contract=off", f"-DDTYPE={ctype}", *flags, f"-I{d}", *srcs,
           str(VERIF / "pbt" / "driver.c"), "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc", "-o", "driver", "-lm",
           "-lpthread"]
    rc, o, e = sh(cmd, cwd=d, timeout=300)
    if rc:
        raise BuildError(e[-2000:])


def history(case, d, rows, x, what):
    """Compare the rows of the main program with a drawn history of calls."""
    n = len(x)
    # the same program, with its loop over a block of samples run by OpenMP threads
    if case["threads"]:
        rc, o, e = sh(["gcc", "-O1", "-w", "-ffp-contract=off", "-fopenmp",
                       *sorted(p.name for p in d.glob("*.c")), "-o", "omp", "-lm"], cwd=d, timeout=300)
        if rc:
            raise Violation(f"does not compile with OpenMP: {e[-800:]}\n{what}")
        try:
            rows2 = run_program(d, "./omp", "out_omp.txt", env={"OMP_WAIT_POLICY": "passive"})
        except RunError as ex:
            raise Violation(f"OpenMP program: {ex}\n{what}") from ex
        dd = J.diff(rows2, rows, [0.0] * n)
        if dd:
            raise Violation(f"the OpenMP program and the sequential one differ: {dd}\n{what}")
    plan, runs = plan_of(case, n)
    tsan = case["tsan"] and case["threads"]
    try:
        compile_driver(d, x.dtype.name, tsan)
    except BuildError as ex:
        raise Violation(f"generated files do not link with another main: {ex}\n{what}") from ex
    x.tofile(d / "in.bin")
    (d / "plan.bin").write_bytes(b"".join(struct.pack("<iii", *p) for p in plan))
    rc, o, e = sh(["./driver", "in.bin", "out.bin", str(n), "plan.bin"], cwd=d, timeout=200)
    if "FATAL: ThreadSanitizer" in e:
        raise RuntimeError(e[-500:])
    if rc:
        raise Violation(f"history {plan[:20]}: exit code {rc}: {e[-1500:]}\n{what}")
    got = np.fromfile(d / "out.bin", dtype=x.dtype).reshape(len(runs), -1).astype(np.float64)
    dd = J.diff(list(got), [rows[s] for s in runs], [0.0] * len(runs))
    if dd:
        raise Violation(f"history {plan[:40]} (runs {runs[:40]}): {dd}\n{what}")
    return plan, tsan


def run(case):
    spec = case["spec"]
    n = spec["n"]
    model = S.build_model(spec)
    x = S.dataset(spec)
    # references are only needed for a few samples: the others are compared bit for bit
    few = sorted({0, n - 1, n // 2})
    ref = J.reference(spec, model, x[few])
    groups = any(nd.get("attrs", {}).get("group", 1) != 1 for nd in spec["nodes"])
    kw = {} if groups else {"versions": {"Conv2D": case["alg"]}}
    with scratch() as d:
        import onnx
        m2 = onnx.ModelProto()
        m2.CopyFrom(model)
        r = F.safe_run(spec, m2, x, d, "ACETONE", want_c=True, want_py=False, optimization=case["opt"], **kw)
        rows = r.c
        if len(rows) != n:
            raise Violation(f"{len(rows)} output lines for {n} samples\nmodel: {J.describe(spec)}")
        J.check_rows("main program: wrong output", [rows[i] for i in few], ref, model, x[few], spec)
        plan, tsan = history(case, d, rows, x, f"model: {J.describe(spec)}")
    k = "1" if n == 1 else "<32" if n < 32 else "=32k" if n % 32 == 0 else ">32"
    return Info([*F.labels_of(spec), f"n{k}", f"threads{case['threads']}", *(["tsan"] if tsan else [])],
                len({tuple(q) for q in rows}) > 1 and F.nontrivial(rows),
                {**F.sample(spec), "history": plan[:12], "threads": case["threads"]})


@st.composite
def nnet_cases(draw):
    net = draw(N.networks(n=draw(st.sampled_from([2, 3, 5, 31, 33, 64]))))
    return {"net": net, "seed": draw(st.integers(0, 10**6)), "threads": draw(st.sampled_from([0, 2, 4, 7])),
            "tsan": draw(st.integers(0, 3)) == 0}


def run_nnet(case):
    net = case["net"]
    with scratch() as d:
        v = N.write(net, d / "model.nnet")
        ref, tol = N.reference(net, v)
        what = f"NNET network {net}"
        try:
            r = run_acetone(d / "model.nnet", v["x"], d, want_c=True, want_py=False, normalize=net["normalize"])
        except (GenError, BuildError, RunError) as e:
            raise Violation(f"{type(e).__name__}: {e}\n{what}") from e
        dd = J.diff(r.c, ref, tol)
        if dd:
            raise Violation(f"main program: {dd}\n{what}")
        plan, tsan = history(case, d, r.c, v["x"], what)
    return Info([f"normalize:{net['normalize']}", f"threads{case['threads']}", f"n{net['n']}"],
                len({tuple(q) for q in r.c}) > 1, {"net": net, "history": plan[:12]})


@st.composite
def py_cases(draw):
    spec = draw(F.chain(1, 6, unary=OPS, branch=draw(st.sampled_from([0, 3])), n=draw(st.integers(2, 6)),
                        dtypes=("float32", "float32", "float64")))
    order = draw(st.lists(st.integers(0, spec["n"] - 1), min_size=1, max_size=9))
    return {"spec": spec, "order": order, "opt": draw(st.booleans()), "alg": draw(st.sampled_from(ALGS)),
            "times": draw(st.sampled_from([1, 1, 2]))}


def run_py(case):
    """The reference inference of samples given in another order, repeated, by the same generator."""
    spec = case["spec"]
    model = S.build_model(spec)
    x = S.dataset(spec)
    ref = J.reference(spec, model, x)
    groups = any(nd.get("attrs", {}).get("group", 1) != 1 for nd in spec["nodes"])
    kw = {} if groups else {"versions": {"Conv2D": case["alg"]}}
    what = f"model: {J.describe(spec)}"
    with scratch() as d:
        r = F.safe_run(spec, model, x.copy(), d, "ACETONE", want_c=False, want_py=True, optimization=case["opt"], **kw)
        J.check_rows("reference inference", r.py, ref, model, x, spec)
        again = x[case["order"]]
        given = again.copy()
        try:
            with quiet():
                r.gen.test_dataset = given
                for _ in range(case["times"]):
                    r.gen.compute_inference(str(d))
        except Exception as e:  # noqa: BLE001
            raise Violation(f"second reference inference: {type(e).__name__}: {e}\n{what}") from e
        rows = parse_text((d / "output_python.txt").read_text(), "hex")
        if given.tobytes() != again.tobytes():
            raise Violation(f"the reference inference modifies the samples given\n{what}")
        dd = J.diff(rows, [r.py[i] for i in case["order"]], [0.0] * len(again))
        if dd:
            raise Violation(f"reference inference of the samples {case['order']} after that of all: {dd}\n{what}")
    return Info([*F.labels_of(spec), f"order{len(case['order'])}"],
                len({tuple(q) for q in r.py}) > 1, {**F.sample(spec), "order": case["order"]})


fams = [
    Family("python", py_cases, run_py, 1500),
    Family("few", lambda: cases([2, 3, 5, 9]), run, 220),
    Family("blocks", lambda: cases([31, 32, 33, 40, 63, 64, 65, 96, 97]), run, 180),
    Family("nnet", nnet_cases, run_nnet, 120),
]

CHECK = Check(
    "P07", "Inference is a pure, reentrant function of the sample",
    "Chains and small graphs of operators with 2-97 samples, and NNET networks with or without normalization. The main program's lines are compared bit for bit with "
    "calls of the inference function in a drawn history: any order, repetitions, any context, contexts previously "
    "filled with garbage bytes or copied from one another, several threads with their own contexts (a part of them "
    "under ThreadSanitizer), and with the same main program run by OpenMP threads; the caller's input must stay "
    "unmodified, no heap allocation may happen during an inference, and some samples are compared with ONNX "
    "Runtime. The reference inference of all the samples, then of a drawn sequence of them, must agree bit for bit. Non-trivial: at least two samples have different outputs.",
    fams,
    assumptions=["ONNX Runtime 1.18 CPU / onnx.reference implement the ONNX specification",
                 "gcc compiles the generated program faithfully (-O1, no fp contraction)",
                 "ThreadSanitizer and the heap counters only see what a generated history executes"])
