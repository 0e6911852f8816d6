"""Helpers of the demonstration: build an ONNX model, run ACETONE on it, compare with ONNX Runtime."""
import contextlib
import io
import os
import subprocess
import sys
import tempfile

import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper

TP = {"float32": TensorProto.FLOAT, "float64": TensorProto.DOUBLE}


def node(op, ins, out, **at):
    return helper.make_node(op, ins, [out], name="n_" + out, **at)


def model(shape, nodes, inits, out, outshape, dtype="float32"):
    g = helper.make_graph(nodes, "g", [helper.make_tensor_value_info("x", TP[dtype], shape)],
                          [helper.make_tensor_value_info(out, TP[dtype], outshape)],
                          initializer=[numpy_helper.from_array(np.ascontiguousarray(v), k) for k, v in inits.items()])
    m = helper.make_model(g, opset_imports=[helper.make_opsetid("", 18)])
    m.ir_version = 9
    m = onnx.shape_inference.infer_shapes(m, strict_mode=True)
    onnx.checker.check_model(m)
    return m


def ort(m, x, shape):
    import onnxruntime
    s = onnxruntime.InferenceSession(m.SerializeToString(), providers=["CPUExecutionProvider"])
    return [np.asarray(s.run(None, {"x": r.reshape(shape)})[0]).ravel() for r in x]


def parse(text):
    return [np.array([float.fromhex(w) for w in line.split()]) for line in text.splitlines()]


def acetone(m, x, c=True, py=True, flags=("-O1",), **kw):
    """Outputs of the generated program and of the reference inference."""
    from acetone_nnet import CodeGenerator
    m2 = m
    if isinstance(m, onnx.ModelProto):
        m2 = onnx.ModelProto()
        m2.CopyFrom(m)
    rc = rp = None
    with tempfile.TemporaryDirectory() as d:
        with contextlib.redirect_stdout(io.StringIO()):
            gen = CodeGenerator(file=m2, function_name="inference", nb_tests=len(x), test_dataset=x, **kw)
            gen.generate_c_files(d)
            if py:
                gen.compute_inference(d)
                rp = parse(open(os.path.join(d, "output_python.txt")).read())
        if c:
            src = sorted(f for f in os.listdir(d) if f.endswith(".c"))
            subprocess.run(["gcc", "-w", *flags, *src, "-o", "prog", "-lm"], cwd=d, check=True)
            subprocess.run(["./prog", "out.txt"], cwd=d, check=True, stdout=subprocess.DEVNULL)
            rc = parse(open(os.path.join(d, "out.txt")).read())
    return rc, rp


def expect(what, got, ref, tol=1e-4):
    assert len(got) == len(ref), (what, len(got), len(ref))
    for i, (a, b) in enumerate(zip(got, ref)):
        a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
        if a.shape != b.shape or not np.all(np.abs(a - b) <= tol * max(1.0, np.max(np.abs(b)))):
            print(f"{what}: sample {i}: {a[:12]} instead of {b[:12]}")
            sys.exit(1)


def both(m, x, shape, tol=1e-4, **kw):
    """The C code and the reference inference have to agree with ONNX Runtime."""
    ref = ort(m, x, shape)
    c, p = acetone(m, x, **kw)
    if c is not None:
        expect("C code", c, ref, tol)
    if p is not None:
        expect("python", p, ref, tol)
    print("ok")


def data(n, size, seed=0, dtype=np.float32):
    return np.random.default_rng(seed).uniform(-1, 1, (n, size)).astype(dtype)


def rnd(shape, seed=1, dtype=np.float32):
    return np.random.default_rng(seed).uniform(-1, 1, shape).astype(dtype)
