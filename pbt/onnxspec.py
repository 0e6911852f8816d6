"""Plain-data description of an ONNX model, how to build it, and the ORT oracle."""
import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper

NP = {"float32": np.float32, "float64": np.float64, "int64": np.int64}
TP = {"float32": TensorProto.FLOAT, "float64": TensorProto.DOUBLE, "int64": TensorProto.INT64}


def init_values(i, dtype):
    """Expand one initializer description into an array (pure function of it)."""
    shape = tuple(i["shape"])
    if "vals" in i:
        return np.array(i["vals"], dtype=NP[i.get("dtype", dtype)]).reshape(shape)
    dt = i.get("dtype", dtype)
    return rand_array(shape, i["seed"], i.get("dist", "unit"), dt).astype(NP[dt])


def rand_array(shape, seed, dist, dtype="float32"):
    """Deterministic expansion of a drawn seed."""
    rng = np.random.default_rng(seed)
    if dtype == "float64":      # values which single precision cannot represent
        if dist == "unit":
            return rng.uniform(-1, 1, size=shape)
        if dist == "pos":
            return rng.uniform(0.25, 2.0, size=shape)
    if dist == "unit":          # float32-representable values in [-1, 1]
        return np.float32(rng.uniform(-1, 1, size=shape))
    if dist == "int":           # small integers: sums and products are exact
        return rng.integers(-4, 5, size=shape).astype(np.float32)
    if dist == "pos":           # bounded away from zero, for divisors / variances / logs
        return np.float32(rng.uniform(0.25, 2.0, size=shape))
    if dist == "wide":
        return np.float32(rng.uniform(-1, 1, size=shape) * 10.0 ** rng.integers(-3, 3, size=shape))
    if dist == "large":         # where exponentials overflow or vanish
        return np.float32(rng.uniform(-1, 1, size=shape) * 10.0 ** rng.integers(0, 4, size=shape))
    if dist == "distinct":      # a permutation: every value differs, for data movement operators
        n = int(np.prod(shape)) if shape else 1
        return (rng.permutation(n) + 1).astype(np.float32).reshape(shape)
    raise ValueError(dist)


def build_model(spec):
    dt = spec["dtype"]
    inits = [numpy_helper.from_array(np.ascontiguousarray(init_values(v, dt)), k) for k, v in spec["inits"].items()]
    nodes = [helper.make_node(n["op"], list(n["in"]), [n["out"]], name=n.get("name", f"n_{n['out']}"),
                              **{k: v for k, v in n.get("attrs", {}).items()}) for n in spec["nodes"]]
    g = helper.make_graph(
        nodes, "g",
        [helper.make_tensor_value_info("x", TP[dt], spec["input"])],
        [helper.make_tensor_value_info(spec["output"], TP[dt], spec["outshape"]) if spec.get("outshape")
         else helper.make_empty_tensor_value_info(spec["output"])],
        initializer=inits)
    m = helper.make_model(g, opset_imports=[helper.make_opsetid("", spec.get("opset", 18))])
    m.ir_version = 9
    m = onnx.shape_inference.infer_shapes(m, strict_mode=True)
    # the graph output needs a static shape
    if not spec.get("outshape"):
        t = [v for v in m.graph.output][0]
        if not t.type.tensor_type.HasField("elem_type") and t.type.tensor_type.elem_type == 0:
            raise RuntimeError("shape inference failed")
    onnx.checker.check_model(m)
    return m


def dataset(spec):
    n = spec.get("n", 1)
    size = int(np.prod(spec["input"]))
    a = rand_array((n, size), spec["dseed"], spec.get("ddist", "unit"), spec["dtype"])
    return a.astype(NP[spec["dtype"]])


def ort_run(model, x, spec):
    import onnxruntime as ort
    so = ort.SessionOptions()
    so.intra_op_num_threads = 1
    so.inter_op_num_threads = 1
    so.graph_optimization_level = ort.GraphOptimizationLevel.ORT_DISABLE_ALL
    # with memory reuse, ORT 1.18 returns wrong values from the second run on for some graphs
    so.enable_mem_pattern = False
    so.enable_mem_reuse = False
    so.log_severity_level = 4
    s = ort.InferenceSession(model.SerializeToString(), so, providers=["CPUExecutionProvider"])
    return [np.asarray(s.run(None, {"x": r.reshape(spec["input"])})[0]) for r in x]
