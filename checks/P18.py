"""P18 - debug mode: the recorded intermediate tensors are those of the model."""
import random

import numpy as np
import onnx
from hypothesis import assume
from hypothesis import strategies as st

from pbt import families as F
from pbt import judge as J
from pbt import onnxspec as S
from pbt.cgen import BuildError, GenError, RunError, compile_generated, parse_text, quiet, run_program, scratch, sh
from pbt.disguise import disguise
from pbt.engine import Check, Family, Info, Reject, Violation


@st.composite
def cases(draw, lo, hi, branch):
    dt = ("float32", "float32", "float64")
    spec = draw(F.chain(lo, hi, branch=branch, n=1, dtypes=dt) if hi < 100 else F.deep(lo, hi, dtypes=dt))
    return {"spec": spec, "seed": draw(st.integers(0, 10**6)), "style": draw(st.sampled_from(["plain", "number", "slash"])),
            "constants": draw(st.booleans()), "clean": draw(st.booleans()), "pick": draw(st.booleans()),
            "inputs": draw(st.integers(0, 5)) == 0}


BYPASSED = ("Dropout", "Reshape", "Flatten", "Unsqueeze", "Constant")


def same(what, got, targets, ref, tol):
    if len(got) != len(ref):
        raise Violation(f"{what}: {len(got)} tensors recorded ({targets}) for {len(ref)} layers")
    for g, t, r, e in zip(got, targets, ref, tol):
        d = J.diff([g], [r], [e])
        if d:
            raise Violation(f"{what}: layer {t}: {d}")


def run(case):
    from acetone_nnet import CodeGenerator, debug
    spec = case["spec"]
    model = S.build_model(spec)
    x = S.dataset(spec)
    ref = J.reference(spec, model, x)
    m2 = disguise(model, case["seed"], case["style"], constants=case["constants"], inputs=case["inputs"])
    # the tensors to be recorded: one per node which ACETONE computes, in the order of the nodes
    names = [n.output[0] for n in m2.graph.node if n.op_type not in BYPASSED]
    assume(names)
    try:
        allm = onnx.ModelProto()
        allm.CopyFrom(m2)
        infer = onnx.shape_inference.infer_shapes(allm)
        vi = {v.name: v for v in infer.graph.value_info}
        out = allm.graph.output[0].name
        allm.graph.output.extend([vi[n] for n in names if n != out])
        if spec["dtype"] == "float64":
            try:
                sess = J._session(allm)
            except Exception:  # noqa: BLE001
                from onnx.reference import ReferenceEvaluator
                sess = ReferenceEvaluator(allm)
        else:
            sess = J._session(allm)
        vals = dict(zip([o.name for o in allm.graph.output], sess.run(None, {"x": x[0].reshape(spec["input"])})))
    except KeyError:
        assume(False)
    rows = [np.asarray(vals[n], dtype=np.float64).ravel() for n in names]
    big = max([1.0] + [float(np.max(np.abs(r), initial=0.0)) for r in rows])
    tol = [ref.tol[0] + (1e-4 if spec["dtype"] == "float32" else 1e-10) * big for _ in rows]
    what = f"model: {J.describe(spec)}"
    with scratch() as d:
        try:
            m3 = onnx.ModelProto()
            m3.CopyFrom(m2)
            with quiet():
                gen = CodeGenerator(file=m3, function_name="inference", nb_tests=1, test_dataset=x, debug_mode="onnx")
                gen.generate_c_files(d)
                opy, tpy = gen.compute_inference(str(d))
            compile_generated(d)
            rc = run_program(d)
            with quiet():
                oc, tc = debug.extract_outputs_c(d / "debug_file.txt", gen.data_type, len(gen.debug_target))
                sp, stp = debug.reorder_outputs(opy, tpy)
        except (GenError, BuildError, RunError) as e:
            raise Violation(f"debug flow failed: {e}\n{what}") from e
        except Exception as e:  # noqa: BLE001
            raise Violation(f"debug flow failed: {type(e).__name__}: {e}\n{what}") from e
        try:
            J.check_rows("C output in debug mode", rc, ref, model, x, spec)
            same("C debug file", oc, tc, rows, tol)
            same("python debug outputs", sp, stp, rows, tol)
            if list(tc) != list(stp):
                raise Violation(f"C and python record different layers: {tc} / {stp}")
            if len(set(tc)) != len(tc):
                raise Violation(f"a layer is recorded twice: {tc}")
        except Violation as v:
            raise Violation(f"{v}\n{what}") from v
    labels = [*F.labels_of(spec), case["style"]]
    # the reference tensors which debug_onnx computes (with ONNX Runtime), and the selection of some of them
    if spec["dtype"] == "float32":
        m4 = onnx.ModelProto()
        m4.CopyFrom(m2)
        rng = random.Random(case["seed"])
        pick = [n for n in names if rng.random() < 0.5] if case["pick"] else []
        try:
            with quiet():
                _, idx, oo = debug.debug_onnx(m4, x[0].reshape(spec["input"]), debug_target=pick or None,
                                              optimize_inputs=case["clean"])
                if pick:
                    ppy, ptpy = debug.extract_outputs_python((opy, tpy), idx)
        except Exception as e:  # noqa: BLE001
            ort_right(m2, pick or names, vi, x[0].reshape(spec["input"]), vals, tol[0])
            raise Violation(f"debug_onnx failed: {type(e).__name__}: {e}\n{what}") from e
        sel = [(r, t) for n, r, t in zip(names, rows, tol) if not pick or n in pick]
        try:
            try:
                same("debug_onnx", oo, [str(i) for i in range(len(oo))], [r for r, _ in sel], [t for _, t in sel])
            except Violation:
                ort_right(m2, pick or names, vi, x[0].reshape(spec["input"]), vals, tol[0])
                raise
            if pick:
                same("python outputs of the targets", ppy, ptpy, [r for r, _ in sel], [t for _, t in sel])
                labels.append("picked")
            elif idx:
                raise Violation(f"target indices {idx} without targets")
            import contextlib
            import io
            with contextlib.redirect_stdout(io.StringIO()):
                got = pick and ppy or sp
                ok = debug.compare_result(got, oo, [str(i) for i in range(len(oo))], atol=2 * max(tol), rtol=0)
                # a wrong tensor has to be noticed, whichever it is
                k = rng.randrange(len(oo))
                bad = [np.array(a) for a in got]
                bad[k] = bad[k].astype(np.float64)
                bad[k][rng.randrange(bad[k].size)] += 20 * max(tol) + 1
                ko = debug.compare_result(bad, oo, [str(i) for i in range(len(oo))], atol=2 * max(tol), rtol=0)
            if not ok or ko:
                raise Violation(f"compare_result says {ok} for equal tensors, {ko} for different ones")
        except Violation as v:
            raise Violation(f"{v}\n{what}") from v
    return Info(labels, len(rows) >= 2 and F.nontrivial(rows), {**F.sample(spec), "recorded": tc})


COUNTER = """static unsigned long long now;
static unsigned long long step = 1;
static inline unsigned long long read_evt_counter(void) { now += step; step += 2; return now; }
static inline void reset_evt_counter(int c) { }
static inline void select_evt_counter(int c) { }
static inline void event_track(int c) { }
static inline void enable_evt_counter(int c) { }
"""


def run_time(case):
    """The time mode, with a counter of the harness in place of the one of the target board."""
    from acetone_nnet import CodeGenerator
    spec = case["spec"]
    model = S.build_model(spec)
    x = np.concatenate([S.dataset(spec)] * case["n"])
    ref = J.reference(spec, model, x)
    what = f"model: {J.describe(spec)}"
    m2 = disguise(model, case["seed"], case["style"], constants=case["constants"], inputs=case["inputs"])
    names = [n.output[0] for n in m2.graph.node if n.op_type not in BYPASSED]
    with scratch() as d:
        try:
            with quiet():
                gen = CodeGenerator(file=m2, function_name="inference", nb_tests=len(x), test_dataset=x, debug_mode="time")
                gen.generate_c_files(d)
            (d / "MMU.h").write_text("")
            (d / "PMH.h").write_text(COUNTER)
            compile_generated(d)
            rc, o, e = sh(["./prog", "out.txt"], cwd=d)
        except Exception as e:  # noqa: BLE001
            raise Violation(f"time mode failed: {type(e).__name__}: {e}\n{what}") from e
        if rc:
            raise Violation(f"the program ends with {rc} in time mode\n{what}")
        J.check_rows("C output in time mode", parse_text((d / "out.txt").read_text()), ref, model, x, spec)
    times = [[]]
    for line in o.splitlines():
        w = line.replace(":", "").split()
        if line.startswith("time total"):
            if sum(int(v) for *_, v in times[-1]) != int(w[-1]):
                raise Violation(f"the total {w[-1]} is not the sum of {times[-1]}\n{what}")
            times.append([])
        elif line.startswith("time "):
            times[-1].append((*w[1:-1], w[-1]))
    if times.pop() or len(times) != len(x):
        raise Violation(f"times of {len(times)} samples instead of {len(x)}\n{what}")
    for t in times:
        who = [tuple(v[:-1]) for v in t]
        mine = [v for v in who if v[0] not in ("Input_layer", "Constant", "output")]
        if len(set(who)) != len(who) or who[-1] != ("output",) or len(mine) != len(names):
            raise Violation(f"times of {who} for {len(names)} operators\n{what}")
    return Info([*F.labels_of(spec), "time"], len(names) >= 2, {**F.sample(spec), "times": times[0]})


def ort_right(model, names, vi, x, vals, tol):
    """Reject the case where ONNX Runtime, with its optimizations, does not compute these tensors of the model."""
    import onnxruntime
    m = onnx.ModelProto()
    m.CopyFrom(model)
    m.graph.output.extend([vi[n] for n in names if n != m.graph.output[0].name])
    try:
        sess = onnxruntime.InferenceSession(m.SerializeToString(), providers=["CPUExecutionProvider"])
        got = dict(zip([o.name for o in m.graph.output], sess.run(None, {"x": x})))
    except Exception as e:  # noqa: BLE001
        raise Reject(f"ONNX Runtime: {str(e)[:60]}") from e
    for n in names:
        a, b = np.asarray(got[n], np.float64).ravel(), np.asarray(vals[n], np.float64).ravel()
        if a.shape != b.shape or not np.all(np.abs(a - b) <= tol):
            raise Reject("ONNX Runtime optimizations change the tensors")


def quiet_ort():
    import onnxruntime
    onnxruntime.set_default_logger_severity(4)


fams = [
    Family("chain", lambda: cases(2, 8, 0), run, 700),
    Family("graph", lambda: cases(4, 14, 4), run, 500),
    Family("time", lambda: cases(2, 10, 3).flatmap(lambda c: st.integers(1, 3).map(lambda n: {**c, "n": n})), run_time, 120),
    Family("deep", lambda: cases(100, 120, 0), run, 24),
]

CHECK = Check(
    "P18", "Debug mode records the intermediate tensors of the model",
    "Networks of 2-14 operators, and of 100-120 cheap ones (chains and branching graphs, nodes in any topological order, several naming styles) "
    "generated in ONNX debug mode; the tensors in the debug file of the program, those returned by the reference "
    "inference and those of debug_onnx, all or for selected targets, compared one by one, in number, order and value "
    "with ONNX Runtime; compare_result has to accept them and to refuse a corrupted one. In time mode, one time for every layer and sample, whose sum is the total, and unchanged outputs. Non-trivial: at least two "
    "recorded tensors, not all constant.",
    fams,
    setup=quiet_ort,
    assumptions=["ONNX Runtime 1.18 CPU / onnx.reference implement the ONNX specification",
                 "gcc compiles the generated program faithfully (-O1, no fp contraction)"])
