"""P08 - parameters and samples reach the generated program exactly, however they are given or written."""
import json

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

from pbt import families as F
from pbt import judge as J
from pbt import onnxops as O
from pbt import onnxspec as S
from pbt.cgen import (BuildError, GenError, RunError, acetone_generator, make_generated, parse_text, quiet,
                      run_program, scratch)
from pbt.engine import Check, Family, Info, Violation

GEMM = [f"{k}_gemm_{t}" for k in ("indirect", "std") for t in ("nn", "nt", "tn", "tt")]
ALGS = [None, "6loops", *GEMM]
EMIT = ["hex", "dec", "bin"]
GIVE = ["same", "same", "f64", "f16", "int", "shaped", "fortran", "strided", "text", "text_long", "text_short", "external", "random", "generated"]


def exotic(n, seed, dtype):
    """Finite floating point numbers of any magnitude: random bits, subnormals, extremes, short and long fractions."""
    rng = np.random.default_rng(seed)
    ut, ft = (np.uint32, np.float32) if dtype == "float32" else (np.uint64, np.float64)
    fi = np.finfo(ft)
    bits = rng.integers(0, np.iinfo(ut).max, size=n, dtype=ut, endpoint=True)
    v = bits.view(ft).copy()
    k = rng.integers(0, 8, size=n)
    special = np.array([0.0, -0.0, 1.0, fi.max, -fi.max, fi.tiny, fi.smallest_subnormal, -fi.smallest_subnormal,
                        fi.eps, 0.1, 1 / 3, 1e-5, 16777217.0, 0.5, 1 + fi.eps, 2.0 ** 20, 1 + 2.0 ** -20], dtype=ft)
    v = np.where(k == 0, special[rng.integers(0, len(special), size=n)], v)
    v = np.where(k == 1, rng.integers(-40, 40, size=n).astype(ft) / 8, v)
    v = np.where((k == 2) | (k == 3), rng.uniform(-1, 1, size=n).astype(ft), v)
    return np.where(np.isfinite(v), v, ft(0.7)).astype(ft)


# ------------------------------------------------------------------ variants
def write_text(path, x, hexa, numbers=False):
    with open(path, "w") as f:
        for r in x:
            if hexa:
                json.dump([float(v).hex() for v in r.ravel()], f)
            elif numbers:
                json.dump([float(v) for v in r.ravel()], f)
            else:
                json.dump([repr(float(v)) for v in r.ravel()], f)
            f.write("\n")


def give(how, x, spec, d, hexa, seed):
    """(constructor arguments, samples which the network has to work on) for one way of giving the samples."""
    rng = np.random.default_rng(seed)
    dt = S.NP[spec["dtype"]]
    if how in ("random", "generated"):
        return {"nb_tests": len(x), "test_dataset": None}, None
    if how == "f64":
        with np.errstate(all="ignore"):
            y = x.astype(np.float64) * (1 + rng.uniform(-1, 1, size=x.shape) * 2.0 ** -27)
            z = y.astype(dt)
        if not np.isfinite(z).all():
            y, z = x.astype(np.float64), x
        return {"nb_tests": len(y), "test_dataset": y}, z
    if how == "f16":
        with np.errstate(all="ignore"):
            y = x.astype(np.float16)
        y = np.where(np.isfinite(y), y, np.float16(3.140625))
        return {"nb_tests": len(y), "test_dataset": y}, y.astype(dt)
    if how == "int":
        y = rng.integers(-100, 100, size=x.shape).astype(rng.choice([np.int64, np.int32, np.int8]))
        return {"nb_tests": len(y), "test_dataset": y}, y.astype(dt)
    if how == "shaped":
        shape = [tuple(spec["input"]), tuple(spec["input"][1:]), (1, -1)][int(rng.integers(3))]
        return {"nb_tests": len(x), "test_dataset": x.reshape((len(x), *shape))}, x
    if how == "fortran":
        return {"nb_tests": len(x), "test_dataset": np.asfortranarray(x.reshape((len(x), *spec["input"][1:])))}, x
    if how == "strided":
        y = np.zeros((len(x), x.shape[1] * 2), dtype=x.dtype)
        y[:, ::2] = x
        return {"nb_tests": len(x), "test_dataset": y[:, ::2]}, x
    if how in ("text", "text_long", "text_short"):
        y = np.concatenate([x, x[::-1] + 1]) if how == "text_long" else x
        write_text(d / "data.txt", y, hexa, numbers=bool(rng.integers(2)))
        p = d / "data.txt"
        more = int(rng.integers(1, 40)) if how == "text_short" else 0
        return {"nb_tests": len(x) + more, "test_dataset": str(p) if rng.integers(2) else p}, x
    if how == "external":
        sep, fmt = str(rng.choice([" ", "\n", " \n "])), int(rng.integers(3))
        words = [float(v).hex() if fmt == 0 else repr(float(v)) if fmt == 1 else f"{float(v):.17e}" for v in x.ravel()]
        (d / "ext.txt").write_text(sep.join(words) + ("\n" if rng.integers(2) else ""))
        return {"nb_tests": len(x), "external_input": True}, x
    return {"nb_tests": len(x), "test_dataset": x}, x


def produce(model, d, how, emit, kw, x, expect_rows):
    """Outputs (C, Python) of one variant."""
    again = x
    if how == "external" and len(x) % 2:       # the reference inference reads a file too
        again = d / "again.txt"
        write_text(again, np.asarray(x), emit != "dec")
    gen = acetone_generator(model, to_hex=emit != "dec", bin_dataset=emit == "bin", **kw)
    out = d / "code"
    try:
        with quiet():
            if how == "generated":      # the samples are drawn again on demand
                first, drawn = gen.test_dataset, gen.generate_dataset()
                if drawn is not gen.test_dataset or (first.size > 3 and np.array_equal(first.ravel(), drawn.ravel())):
                    raise Violation("generate_dataset leaves the data set unchanged")
            gen.generate_c_files(out)
    except Violation:
        raise
    except Exception as ex:  # noqa: BLE001
        raise GenError("generate", ex) from ex
    try:
        with quiet():
            gen.compute_inference(str(out), **({"dataset_or_path": again} if how == "external" else {}))
    except Exception as ex:  # noqa: BLE001
        raise GenError("python inference", ex) from ex
    make_generated(out, "inference")
    c = run_program(out, "./inference", "out_c.txt", "hex" if emit != "dec" else "dec",
                    args=[str(d / "ext.txt")] if how == "external" else [])
    py = parse_text((out / "output_python.txt").read_text(), "hex" if emit != "dec" else "dec")
    return gen, c, py


def same(what, got, want, dtype=None):
    """Equality of every value (with dtype: of the decimal values read in this type)."""
    if len(got) != len(want):
        raise Violation(f"{what}: {len(got)} lines for {len(want)} samples")
    for i, (a, b) in enumerate(zip(got, want)):
        a = np.asarray(a, dtype=np.float64).ravel()
        b = np.asarray(b, dtype=np.float64).ravel()
        if dtype:
            with np.errstate(all="ignore"):
                a = a.astype(dtype).astype(np.float64)
        if a.shape != b.shape:
            raise Violation(f"{what}: sample {i}: {a.size} values instead of {b.size}")
        bad = ~((a == b) | (np.isnan(a) & np.isnan(b)))
        if bad.any():
            j = int(np.argmax(bad))
            raise Violation(f"{what}: sample {i}, element {j} of {a.size} ({int(bad.sum())} differ): "
                            f"{a[j]!r} instead of {b[j]!r}")


# ------------------------------------------------------------------ networks
@st.composite
def variants(draw):
    spec = draw(F.chain(1, 6, unary=("conv", "conv", "act", "gemm", "matmul_const", "batchnorm", "binop_const", "pad",
                                     "gather", "reduce", "softmax", "maxpool", "transpose", "resize"),
                        branch=2, dtypes=("float32", "float32", "float64")))
    spec["n"] = draw(st.sampled_from([1, 2, 3, 5, 33]))
    return {"spec": spec, "emit": draw(st.sampled_from(EMIT)), "give": draw(st.sampled_from(GIVE)),
            "alg": draw(st.sampled_from(ALGS)), "seed": draw(st.integers(0, 10**6)), "opt": draw(st.booleans())}


def run_variants(case):
    spec = case["spec"]
    emit, how = case["emit"], case["give"]
    model = S.build_model(spec)
    x = S.dataset(spec)
    J.reference(spec, model, x)
    grouped = any(n["attrs"].get("group", 1) > 1 for n in spec["nodes"])
    kw = {"versions": {"Conv2D": case["alg"]} if case["alg"] and not grouped else None, "optimization": case["opt"]}
    what = f"samples: {how}, parameters: {emit}, options {kw}\nmodel: {J.describe(spec)}"
    with scratch() as d1, scratch() as d2:
        try:
            args, y = give(how, x, spec, d2, emit != "dec", case["seed"])
            gen, c, py = produce(model, d2, how, emit, {**args, **kw}, y, None)
            if how in ("random", "generated"):
                y = np.asarray(gen.test_dataset).reshape(len(x), -1)
                if y.shape != x.shape or y.dtype != x.dtype or (x.shape[1] > 1 and len(set(y.ravel())) < 2):
                    raise Violation(f"random data set of shape {y.shape}, type {y.dtype}, for {x.shape}, {x.dtype}")
            _, c0, py0 = produce(model, d1, "same", "hex", {"nb_tests": len(y), "test_dataset": y, **kw}, y, None)
        except (GenError, BuildError, RunError) as e:
            raise Violation(f"{type(e).__name__}: {e}\n{what}") from e
        except Violation as e:
            raise Violation(f"{e}\n{what}") from e
    try:
        same("output of the program", c, c0, spec["dtype"] if emit == "dec" else None)
        same("output of the reference inference", py, py0)
    except Violation as v:
        raise Violation(f"{v}\n{what}") from v
    return Info([*F.labels_of(spec), f"emit:{emit}", f"give:{how}", f"{emit}/{how}", f"n{len(x)}"], F.nontrivial(c0),
                {**F.sample(spec), "emit": emit, "give": how})


# ------------------------------------------------------------------ exact values
ECHO = ["gemm", "gemm_bias", "gemm_vec", "conv", "conv", "conv_bias", "add", "mul", "max", "move", "move", "movec"]


@st.composite
def echoes(draw):
    kind = draw(st.sampled_from(ECHO))
    dtype = draw(st.sampled_from(["float32", "float32", "float64"]))
    case = {"kind": kind, "dtype": dtype, "seed": draw(st.integers(0, 2**16)), "emit": draw(st.sampled_from(EMIT)),
            "n": draw(st.sampled_from([1, 2, 3, 35])), "alg": None}
    if kind in ("move", "movec"):
        rank = draw(st.sampled_from((2, 3, 4)))
        b = O.Builder(draw, F.in_shape(draw, rank), dtype=dtype)
        t = O.graph(draw, b, draw(st.integers(1, 4)), ("transpose", "gather", "tile", "reshape4", "dropout")
                    if kind == "move" else ("transpose", "gather", "gather_elements", "flatten", "tile"),
                    multi=("concat",), branch=3)
        assume(t is not None)
        case["spec"] = b.finish(t, case["n"])
    elif kind.startswith("conv"):
        case["shape"] = [draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 5))]
        case["alg"] = draw(st.sampled_from(ALGS))
    else:
        case["shape"] = [draw(st.integers(1, 8)), draw(st.integers(1, 8))]
    case["give"] = draw(st.sampled_from(["same", "same", "text", "text_long", "fortran", "strided", "external", "shaped"]))
    return case


def echo_model(case):
    """(spec, samples, exact outputs) of a network whose outputs are its parameters or its samples."""
    kind, dt, seed = case["kind"], case["dtype"], case["seed"]
    ft = S.NP[dt]
    rng = np.random.default_rng(seed)

    def c(shape, vals):
        return {"shape": list(shape), "vals": np.asarray(vals, dtype=np.float64).ravel().tolist()}
    if kind in ("move", "movec"):
        spec = case["spec"]
        x = exotic(case["n"] * int(np.prod(spec["input"])), seed, dt).reshape(case["n"], -1)
        sess = J._session(S.build_model(spec))
        rows = [np.asarray(sess.run(None, {"x": r.reshape(spec["input"])})[0]).ravel() for r in x]
        return spec, x, rows
    spec = {"dtype": dt, "opset": 18, "labels": [], "inits": {}}
    if kind.startswith("conv"):
        ci, kh, kw, f = case["shape"]
        w = exotic(f * ci * kh * kw, seed, dt).reshape(f, ci, kh, kw)
        bias = exotic(f, seed + 1, dt)
        spec["input"] = [1, ci, kh, kw]
        spec["outshape"] = [1, f, 1, 1]
        if kind == "conv_bias":
            spec["inits"] = {"w": c(w.shape, rng.uniform(-1, 1, w.shape)), "b": c([f], bias)}
            ins = ["x", "w", "b"]
            x = np.zeros((2, ci * kh * kw), dtype=ft)
            rows = [bias, bias]
        else:
            spec["inits"] = {"w": c(w.shape, w)}
            ins = ["x", "w"]
            x = np.eye(ci * kh * kw, dtype=ft)
            rows = list(w.reshape(f, -1).T)
        spec["nodes"] = [{"op": "Conv", "in": ins, "out": "y", "attrs": {"kernel_shape": [kh, kw]}}]
    else:
        k, n = case["shape"]
        if kind.startswith("gemm"):
            w = exotic(k * n, seed, dt).reshape(k, n)
            bias = exotic(n, seed + 1, dt)
            spec["input"], spec["outshape"] = [1, k], [1, n]
            if kind == "gemm":
                spec["inits"] = {"w": c(w.shape, w)}
                spec["nodes"] = [{"op": "MatMul" if seed % 2 else "Gemm", "in": ["x", "w"], "out": "y", "attrs": {}}]
                x, rows = np.eye(k, dtype=ft), list(w)
            else:
                spec["inits"] = {"w": c(w.shape, rng.uniform(-1, 1, w.shape)),
                                 "b": c([n] if kind == "gemm_vec" else [1, n], bias)}
                spec["nodes"] = [{"op": "Gemm", "in": ["x", "w", "b"], "out": "y", "attrs": {}}]
                x, rows = np.zeros((2, k), dtype=ft), [bias, bias]
        else:
            v = exotic(k * n, seed, dt)
            spec["input"] = spec["outshape"] = [1, k, n] if seed % 2 else [1, k, 1, n]
            spec["inits"] = {"c": c(spec["input"], v)}
            op, one = {"add": ("Add", 0.0), "mul": ("Mul", 1.0), "max": ("Max", -np.finfo(ft).max)}[kind]
            spec["nodes"] = [{"op": op, "in": ["x", "c"] if seed % 3 else ["c", "x"], "out": "y", "attrs": {}}]
            x, rows = np.full((2, k * n), one, dtype=ft), [v, v]
    spec["output"], spec["n"], spec["ddist"] = "y", len(x), "exotic"
    return spec, x, rows


def run_echo(case):
    spec, x, rows = echo_model(case)
    model = S.build_model(spec)
    kw = {"versions": {"Conv2D": case["alg"]} if case["alg"] else None}
    emit, how = case["emit"], case["give"]
    what = f"samples: {how}, parameters: {emit}, {kw}\nmodel: {J.describe(spec)}"
    with scratch() as d:
        try:
            args, y = give(how, x, spec, d, emit != "dec", case["seed"])
            _, c, py = produce(model, d, how, emit, {**args, **kw}, y, None)
        except (GenError, BuildError, RunError) as e:
            raise Violation(f"{type(e).__name__}: {e}\n{what}") from e
    try:
        same("output of the program", c, rows, spec["dtype"] if emit == "dec" else None)
        same("output of the reference inference", py, rows)
    except Violation as v:
        raise Violation(f"{v}\n{what}") from v
    vals = {float(v) for r in rows for v in r}
    return Info([case["kind"], case["dtype"], f"emit:{emit}", f"give:{how}", f"alg:{case['alg']}"], len(vals) > 1,
                {"kind": case["kind"], "emit": emit, "give": how, "values": [v.hex() for v in sorted(vals)[:6]]})


fams = [
    Family("variants", variants, run_variants, 330),
    Family("echo", echoes, run_echo, 450),
]

CHECK = Check(
    "P08", "Parameters and samples reach the generated program exactly",
    "Variants: networks of 1-6 operators generated twice, once with samples given as an array of the type of the model "
    "and parameters in hexadecimal source, once with samples given another way (other numeric types, shapes, memory "
    "layouts, text files with strings or numbers, more or fewer lines than wanted, external file, random) and parameters in "
    "hexadecimal, decimal or binary; outputs compared bit for bit (decimal outputs: once read in the type of the network). Echo: "
    "networks whose outputs are their own parameters or samples (one-hot samples through dense and convolution "
    "layers, zero samples to biases, data movements), with values of random bit patterns, subnormals and extremes, "
    "compared exactly. Non-trivial: at least two distinct output values.",
    fams,
    assumptions=["gcc reads hexadecimal and decimal constants exactly", "objcopy links binary data faithfully"])
