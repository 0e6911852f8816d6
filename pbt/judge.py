"""Reference evaluation of a model description, with a sound tolerance, and comparisons."""
import numpy as np
import onnx

from . import onnxspec as S
from .engine import Reject, Violation


def _session(model):
    import onnxruntime as ort
    so = ort.SessionOptions()
    so.intra_op_num_threads = 1
    so.inter_op_num_threads = 1
    so.graph_optimization_level = ort.GraphOptimizationLevel.ORT_DISABLE_ALL
    # with memory reuse, ORT 1.18 returns wrong values from the second run on for some graphs
    so.enable_mem_pattern = False
    so.enable_mem_reuse = False
    so.log_severity_level = 4
    return ort.InferenceSession(model.SerializeToString(), so, providers=["CPUExecutionProvider"])


def with_all_outputs(model, spec):
    """A copy of the model whose outputs are the graph output, then every node output."""
    m = onnx.ModelProto()
    m.CopyFrom(model)
    have = {o.name for o in m.graph.output}
    vi = {v.name: v for v in m.graph.value_info}
    for n in m.graph.node:
        o = n.output[0]
        if o not in have and o in vi:
            m.graph.output.append(vi[o])
            have.add(o)
    return m


class Ref:
    """rows: reference outputs (one flat array per sample); tol: absolute tolerance per sample."""

    def __init__(self, rows, tol, inter, names):
        self.rows, self.tol, self.inter, self.names = rows, tol, inter, names


def perturbed(spec, k):
    """Same model, float initializers multiplied by 1 +- 2^-21 (to measure conditioning)."""
    s = dict(spec)
    s["inits"] = {}
    rng = np.random.default_rng(1000 + k)
    for name, i in spec["inits"].items():
        v = S.init_values(i, spec["dtype"])
        if v.dtype.kind == "f" and not i.get("exact"):
            v = v * (1 + rng.choice([-1.0, 1.0], size=v.shape) * 2.0 ** -21)
            s["inits"][name] = {**{k2: v2 for k2, v2 in i.items() if k2 not in ("seed", "dist")},
                                "vals": np.asarray(v).ravel().tolist()}
        else:
            s["inits"][name] = i
    return s


MAXINTER = 2e4


def reference(spec, model, x, reltol=1e-5):
    """ORT outputs of every sample with a tolerance derived from the model's own conditioning."""
    if spec["dtype"] == "float64":
        return reference64(spec, model, x)
    sess = _session(with_all_outputs(model, spec))
    names = [o.name for o in sess.get_outputs()]
    rng = np.random.default_rng(7)
    rows, tol, inter = [], [], []
    psess = _session(S.build_model(perturbed(spec, 0))) if spec["dtype"] == "float32" else None
    for r in x:
        outs = sess.run(None, {"x": r.reshape(spec["input"])})
        big = 1.0
        for o in outs:
            if o.dtype.kind != "f":
                continue
            if not np.all(np.isfinite(o)):
                raise Reject("non finite reference")
            big = max(big, float(np.max(np.abs(o), initial=0.0)))
        if big > MAXINTER:
            raise Reject("ill conditioned")
        ref = np.asarray(outs[0], dtype=np.float64).ravel()
        t = reltol * max(1.0, float(np.max(np.abs(ref), initial=0.0))) + 0.1 * reltol * big
        if psess is not None:
            xp = (r * (1 + rng.choice([-1.0, 1.0], size=r.shape) * 2.0 ** -21)).astype(r.dtype)
            p = np.asarray(psess.run(None, {"x": xp.reshape(spec["input"])})[0], dtype=np.float64).ravel()
            d = np.abs(p - ref)
            if not np.all(np.isfinite(d)):
                raise Reject("ill conditioned")
            t += 8 * float(np.max(d, initial=0.0))
        if t > 0.05 * max(1.0, float(np.max(np.abs(ref), initial=0.0))):
            raise Reject("ill conditioned")
        rows.append(ref)
        tol.append(t)
        inter.append([np.asarray(o).ravel() for o in outs])
    return Ref(rows, tol, inter, names)


def reference64(spec, model, x, reltol=1e-11):
    """Double precision: onnx.reference, validated against ONNX Runtime in single precision."""
    from onnx.reference import ReferenceEvaluator
    s32 = {**spec, "dtype": "float32"}
    full = with_all_outputs(model, spec)
    sess = _session(with_all_outputs(S.build_model(s32), s32))
    try:
        ev = _session(full)
    except Exception:  # noqa: BLE001 - ONNX Runtime lacks the double version of some operators
        ev = ReferenceEvaluator(full)
    rows, tol, inter = [], [], []
    rng = np.random.default_rng(7)
    for r in x:
        r32 = r.reshape(spec["input"]).astype(np.float32)
        lo = sess.run(None, {"x": r32})
        try:
            with np.errstate(all="ignore"):
                outs = ev.run(None, {"x": r.reshape(spec["input"])})
        except (ValueError, RuntimeError, IndexError, TypeError) as e:
            raise Reject(f"no double precision reference: {e}") from e
        big = 1.0
        for a, b in zip(outs, lo):
            a, b = np.asarray(a, dtype=np.float64).ravel(), np.asarray(b, dtype=np.float64).ravel()
            if not np.all(np.isfinite(a)) or not np.all(np.isfinite(b)):
                raise Reject("non finite reference")
            big = max(big, float(np.max(np.abs(a), initial=0.0)))
            if a.shape != b.shape or np.max(np.abs(a - b), initial=0.0) > 2e-3 * big:
                raise Reject("the oracles disagree")
        if big > MAXINTER:
            raise Reject("ill conditioned")
        ref = np.asarray(outs[0], dtype=np.float64).ravel()
        d = np.abs(ref - np.asarray(lo[0], dtype=np.float64).ravel())
        # the single precision error measures the conditioning
        t = reltol * big + 1e-7 * float(np.max(d, initial=0.0))
        xp = r * (1 + rng.choice([-1.0, 1.0], size=r.shape) * 2.0 ** -49)
        with np.errstate(all="ignore"):
            p = np.asarray(ev.run(None, {"x": xp.reshape(spec["input"])})[0], dtype=np.float64).ravel()
        t += 8 * float(np.max(np.abs(p - ref), initial=0.0))
        rows.append(ref)
        tol.append(t)
        inter.append([np.asarray(o).ravel() for o in outs])
    return Ref(rows, tol, inter, [o.name for o in sess.get_outputs()])


def second_opinion(model, x, spec):
    """onnx.reference outputs, or None when it cannot run the model."""
    try:
        from onnx.reference import ReferenceEvaluator
        ev = ReferenceEvaluator(model)
        return [np.asarray(ev.run(None, {"x": r.reshape(spec["input"])})[0], dtype=np.float64).ravel() for r in x]
    except Exception:  # noqa: BLE001
        return None


def diff(rows, ref, tols):
    """None if equal up to tolerance, else a description of the first difference."""
    if len(rows) != len(ref):
        return f"{len(rows)} output lines instead of {len(ref)}"
    for i, (a, b, t) in enumerate(zip(rows, ref, tols)):
        a = np.asarray(a, dtype=np.float64).ravel()
        b = np.asarray(b, dtype=np.float64).ravel()
        if a.shape != b.shape:
            return f"sample {i}: {a.size} values instead of {b.size}"
        bad = ~(np.abs(a - b) <= t)
        bad &= ~((a == b) | (np.isnan(a) & np.isnan(b)))
        if bad.any():
            j = int(np.argmax(bad))
            return (f"sample {i}, element {j} of {a.size} ({int(bad.sum())} differ): {a[j]!r} instead of {b[j]!r} "
                    f"(tolerance {t:.2g})")
    return None


def check_rows(what, rows, ref, model, x, spec):
    """Raise Violation when rows disagree with ORT and with the second opinion."""
    d = diff(rows, ref.rows, ref.tol)
    if d is None:
        return None
    so = second_opinion(model, x, spec)
    if so is not None and diff(rows, so, ref.tol) is None:
        return "oracle-disagree"
    raise Violation(f"{what}: {d}\nmodel: {describe(spec)}")


def describe(spec):
    s = f"x{spec['input']}"
    for n in spec["nodes"]:
        at = ", ".join(f"{k}={v}" for k, v in n.get("attrs", {}).items())
        s += f"; {n['out']} = {n['op']}({', '.join(n['in'])}{' | ' + at if at else ''})"
    return s + f"; output {spec['output']}"
