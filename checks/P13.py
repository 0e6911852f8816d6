"""P13 - quantized networks compute their fixed-point definition."""
import json
import os

import numpy as np
import onnx
from hypothesis import strategies as st
from onnx import TensorProto, helper, numpy_helper

from pbt.cgen import BuildError, GenError, RunError, compile_generated, make_generated, quiet, run_program, scratch
from pbt.engine import Check, Family, Info, Reject, Violation

# name: C type, C type of the sums, numpy types, bits
TYPES = {"int16": ("short", "int", "int16", "int32", 16, 32),
         "int16long": ("short", "long", "int16", "int64", 16, 64),
         "int8": ("signed char", "int", "int8", "int32", 8, 32),
         "int64": ("long", "long", "int64", "int64", 53, 64),
         "int32": ("int", "long", "int32", "int64", 32, 64)}
TARGETS = ("AVX512VNNI",)


@st.composite
def cases(draw):
    tp = draw(st.sampled_from(["int16", "int16", "int16", "int16long", "int8", "int32", "int64"]))
    bits = TYPES[tp][4]
    rank = draw(st.sampled_from([2, 2, 3, 4]))
    rows = draw(st.sampled_from([1, 1, 1, 2, 3])) if rank > 2 else 1
    nodes, t, width = [], 0, draw(st.integers(1, 6))
    tensors = [width]
    for i in range(draw(st.integers(1, 6))):
        op = draw(st.sampled_from(["MatMul", "MatMul", "MatMul", "Bias", "Bias", "Relu", "Sum"]))
        if i == 0 and draw(st.integers(0, 3)):
            op = "MatMul"
        t = len(tensors) - 1 if draw(st.integers(0, 5)) else draw(st.integers(0, len(tensors) - 1))
        w = tensors[t]
        if op == "MatMul":
            out = draw(st.integers(1, 6))
            # fraction bits of the parameters, bits of their values, bits lost on top of the needed ones
            nodes.append({"op": op, "in": [t], "out": out, "m": draw(st.integers(0, min(bits, 40) + 2)),
                          "bits": draw(st.integers(3, min(bits, 14) - 1)), "loss": draw(st.integers(0, 2)),
                          "seed": draw(st.integers(0, 999))})
            tensors.append(out)
        elif op == "Bias":
            nodes.append({"op": op, "in": [t], "bits": draw(st.integers(1, bits - 2)), "seed": draw(st.integers(0, 999)),
                          "first": draw(st.booleans()), "full": draw(st.booleans())})
            tensors.append(w)
        elif op == "Sum":
            others = [i for i, v in enumerate(tensors) if v == w]
            nodes.append({"op": op, "in": [t, draw(st.sampled_from(others))]})
            tensors.append(w)
        else:
            nodes.append({"op": op, "in": [t]})
            tensors.append(w)
    return {"type": tp, "rank": rank, "rows": rows, "width": tensors[0], "nodes": nodes, "m": draw(st.integers(0, min(bits, 40) + 1)),
            "bits": draw(st.integers(min(4, bits - 2), bits - 1)), "n": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 999)),
            "target": draw(st.sampled_from(TARGETS)), "samples": draw(st.sampled_from(["array", "array", "floats", "file", "external"])),
            "bin": draw(st.booleans()), "make": draw(st.integers(0, 3)) == 0,
            "build": draw(st.sampled_from([None, None, ["-O1 -DUNUSED=1", "-lm -Wl,-O1"], ["-O2", "-s -lm"]])), "opt": draw(st.integers(0, 3)) == 0,
            "extra": draw(st.booleans()), "opset": draw(st.sampled_from([13, 18]))}


def values(shape, bits, seed):
    """Integers of magnitude up to 2**bits - 1, most of them large."""
    r = np.random.default_rng([seed, bits])
    v = r.integers(-(2**bits) + 1, 2**bits, size=shape, dtype=np.int64)
    return np.where(r.random(shape) < 0.1, 0, v)


def define(case):
    """The model, its target configuration and the exact integer outputs; Reject when a value leaves its type."""
    ctype, _, _, _, bits, tbits = TYPES[case["type"]]
    lim, tlim = 2**(bits - 1), 2**(tbits - 1)
    x = values((case["n"], case["rows"], case["width"]), case["bits"], case["seed"])
    q = [case["m"]]                 # fraction bits of the tensors
    val = [x]
    layers = {"X": {"out": fmt(q[0], bits)}}
    inits, nodes = {}, []
    name = ["X"]
    shape = {2: [1], 3: [1, case["rows"]], 4: [1, 1, case["rows"]]}[case["rank"]]
    parent = [-1]
    for i, n in enumerate(case["nodes"]):
        t = n["in"][0]
        out, node = f"t{i}", f"node_{i}"
        if n["op"] == "MatMul":
            w = values((x.shape[2] if t == 0 else val[t].shape[2], n["out"]), n["bits"], n["seed"])
            fr = np.random.default_rng(n["seed"]).choice([0, 0, 0.25, -0.25, 0.5, -0.5], size=w.shape)
            wf = ((w + fr) / 2.0**n["m"]).astype(np.float32)
            w = np.rint(wf.astype(np.float64) * 2.0**n["m"]).astype(np.int64)
            if np.any(np.abs(w) >= lim):
                raise Reject("parameter out of its format")
            if np.any(np.abs(val[t]) @ np.abs(w) >= tlim):
                raise Reject("sum out of its type")
            s = val[t] @ w
            top = int(np.max(np.abs(s)))
            need = 0
            while (top >> need) >= lim:
                need += 1
            shift = min(need + n["loss"], q[t] + n["m"])
            if shift < need:
                raise Reject("result out of its type")
            v = s >> shift
            if np.any(v >= lim) or np.any(v < -lim):
                raise Reject("result out of its type")
            mo = q[t] + n["m"] - shift
            if mo > 60:
                raise Reject("too many fraction bits")
            inits[f"W{i}"] = wf
            layers[f"W{i}"] = {"out": fmt(n["m"], bits)}
            layers[node] = {"in": fmt(q[t], bits), "params": fmt(n["m"], bits), "out": fmt(mo, bits)}
            nodes.append(helper.make_node("MatMul", [name[t], f"W{i}"], [out], name=node))
        elif n["op"] == "Bias":
            k = val[t].shape[2]
            b = values(k, n["bits"], n["seed"])
            bf = (b / 2.0**q[t]).astype(np.float32)
            b = np.rint(bf.astype(np.float64) * 2.0**q[t]).astype(np.int64)
            if np.any(np.abs(b) >= lim):
                raise Reject("parameter out of its format")
            v, mo = val[t] + b, q[t]
            inits[f"W{i}"] = bf.reshape([1] * (case["rank"] - 1) + [k]) if n["full"] else bf
            layers[f"W{i}"] = {"out": fmt(mo, bits)}
            layers[node] = {"in": fmt(mo, bits), "params": fmt(mo, bits), "out": fmt(mo, bits)}
            ins = [name[t], f"W{i}"]
            nodes.append(helper.make_node("Add", ins[::-1] if n["first"] else ins, [out], name=node))
        elif n["op"] == "Sum":
            u = n["in"][1]
            if q[t] != q[u]:
                raise Reject("sum of two formats")
            v, mo = val[t] + val[u], q[t]
            layers[node] = {"in": fmt(mo, bits), "params": fmt(mo, bits), "out": fmt(mo, bits)}
            nodes.append(helper.make_node("Add", [name[t], name[u]], [out], name=node))
        else:
            v, mo = np.maximum(val[t], 0), q[t]
            nodes.append(helper.make_node("Relu", [name[t]], [out], name=node))
            if case["extra"]:
                layers[node] = {"in": fmt(mo, bits), "params": fmt(mo, bits), "out": fmt(mo, bits)}
        if np.any(v >= lim) or np.any(v < -lim):
            raise Reject("result out of its type")
        q.append(mo)
        val.append(v)
        name.append(out)
        parent.append(t)
    # every tensor has to be read: join the unread ones is left to the generator, the output is the last one
    used, stack = set(), [len(case["nodes"])]
    while stack:
        k = stack.pop()
        if k and k not in used:
            used.add(k)
            stack += case["nodes"][k - 1]["in"]
    if 0 not in {i for k in used for i in case["nodes"][k - 1]["in"]}:
        raise Reject("no input")
    nodes = [nd for k, nd in enumerate(nodes, 1) if k in used]
    keep = {i for nd in nodes for i in nd.input}
    g = helper.make_graph(nodes, "g", [helper.make_tensor_value_info("X", TensorProto.FLOAT, [*shape, case["width"]])],
                          [helper.make_tensor_value_info(name[-1], TensorProto.FLOAT, [*shape, val[-1].shape[2]])],
                          initializer=[numpy_helper.from_array(v, k) for k, v in inits.items() if k in keep])
    m = helper.make_model(g, opset_imports=[helper.make_opsetid("", case["opset"])])
    m.ir_version = 8
    m = onnx.shape_inference.infer_shapes(m)
    onnx.checker.check_model(m)
    cfg = {"name": "T", "cflags": "-O1", "quantization": {
        "dtype": ctype, "temp_dtype": TYPES[case["type"]][1], "pydtype": TYPES[case["type"]][2],
        "temp_pydtype": TYPES[case["type"]][3], "layers": layers}}
    return m, cfg, x.reshape(case["n"], -1), val[-1].reshape(case["n"], -1), [nd.op_type for nd in nodes]


def fmt(m, bits):
    return f"Q{bits - 1 - m}.{m}"


def describe(case, model, cfg):
    s = "; ".join(f"{n.output[0]} = {n.op_type}({', '.join(n.input)})" for n in model.graph.node)
    return f"{case['type']} {s}; {json.dumps(cfg['quantization']['layers'])}; samples={case['samples']} bin={case['bin']} opt={case['opt']}"


def run(case):
    from acetone_nnet import CodeGenerator
    model, cfg, x, ref, ops = define(case)
    py = None
    what = describe(case, model, cfg)
    cwd = os.getcwd()
    with scratch() as d:
        out = d / "out"
        arr = x.astype(TYPES[case["type"]][2]).reshape(len(x), 1, -1)
        kw = {"test_dataset": arr, "nb_tests": len(x)}
        args = []
        if case["samples"] == "floats":
            kw["test_dataset"] = arr.astype(np.float64)
        elif case["samples"] == "file":
            (d / "s.txt").write_text("".join(json.dumps([str(v) for v in r.tolist()]) + "\n" for r in x))
            kw["test_dataset"] = str(d / "s.txt")
        elif case["samples"] == "external":
            (d / "ext.txt").write_text("\n".join(" ".join(map(str, r.tolist())) for r in x) + "\n")
            kw["external_input"] = True
            args = [str(d / "ext.txt")]
            case = {**case, "make": False}
        build = case.get("build")
        if build:
            cfg.update(cflags=build[0], ldflags=build[1], compiler=str(d / "cc"))
            (d / "cc").write_text(f"#!/bin/sh\necho \"$*\" >> {d}/log\nexec gcc -ffp-contract=off \"$@\"\n")
            (d / "cc").chmod(0o755)
        os.chdir(d)
        try:
            (d / f"{case['target']}.json").write_text(json.dumps(cfg))
            with quiet():
                gen = CodeGenerator(file=model, function_name="inference", target=case["target"], optimization=case["opt"],
                                    bin_dataset=case["bin"] and case["samples"] != "external", **kw)
                gen.generate_c_files(out)
                gen.compute_inference(str(out), arr if case["samples"] == "external" else None)
        except Exception as e:  # noqa: BLE001
            raise Violation(f"refused: {type(e).__name__}: {str(e)[:300]}\n{what}") from e
        finally:
            os.chdir(cwd)
        py = [[float(w) if "x" not in w else float.fromhex(w) for w in line.split()] for line in
              (out / "output_python.txt").read_text().splitlines()]
        try:
            if case["make"] or (case["bin"] and case["samples"] != "external"):
                make_generated(out)
                c = run_program(out, prog="./inference", mode="int", args=args)
                log = (d / "log").read_text().splitlines() if build else []
                if build and (not any(f" {build[0]} " in f" {v} " for v in log) or f" {build[1]} " not in f" {log[-1]} "):
                    raise Violation(f"flags {build} of the target configuration not used: {log}\n{what}")
            else:
                compile_generated(out, san=case["samples"] == "external")
                c = run_program(out, mode="int", args=args)
        except (BuildError, RunError, ValueError, FileNotFoundError) as e:
            raise Violation(f"{type(e).__name__}: {str(e)[:700]}\n{what}") from e
    for which, rows in (("C program", c), ("reference inference", py)):
        if len(rows) != len(ref):
            raise Violation(f"{len(rows)} lines written by the {which} instead of {len(ref)}\n{what}")
        for i, (a, b) in enumerate(zip(rows, ref.tolist())):
            if list(a) != list(b):
                raise Violation(f"the {which} disagrees with the fixed-point definition: sample {i}: {a[:8]} instead of {b[:8]}\n{what}")
    mm = [n for n in case["nodes"] if n["op"] == "MatMul"]
    return Info([case["type"], case["samples"], *ops], bool("MatMul" in ops and len(set(ref.ravel().tolist())) > 1 and mm),
                {"network": what, "outputs": ref[0][:4].tolist()})


CHECK = Check(
    "P13", "Quantized networks compute their fixed-point definition",
    "Networks of products by constant matrices, constant and tensor sums, and ReLU, with the fixed-point formats (Qn.m) of "
    "their tensors in a target configuration: 8, 16 and 32 bit types, samples given as arrays, text or external files, "
    "text or binary parameters, with and without optimization; the integers written by the C program and the reference "
    "inference are compared exactly with the evaluation of the formats (parameters rounded to the nearest, exact sums, "
    "arithmetic shift). Cases where a value leaves its type are not judged. Non-trivial: a product, and at least two "
    "distinct outputs.",
    [Family("quantized", cases, run, 700)],
    assumptions=["gcc shifts negative integers arithmetically"])
