"""P24 - generation is a function of its arguments, and leaves them as they are."""
import copy
import json
import os
import sys

from hypothesis import strategies as st

from checks import P11 as T
from checks import P13 as Q
from pbt import families as F
from pbt import judge as J
from pbt import kjson as K
from pbt import nnet as N
from pbt import onnxops as O
from pbt import onnxspec as S
from pbt.boot import VERIF
from pbt.cgen import quiet, scratch, sh
from pbt.disguise import disguise


from pbt.engine import Check, Family, Info, Reject, Violation

ALGS = [None, "6loops", *(f"{k}_gemm_{t}" for k in ("indirect", "std") for t in ("nn", "nt", "tn", "tt"))]


@st.composite
def cases(draw, fmts=("onnx",) * 6 + ("nnet", "nnet", "json", "json", "quantized", "torch")):
    fmt = draw(st.sampled_from(fmts))
    if fmt == "onnx":
        net = draw(F.chain(1, 7, branch=4, dtypes=("float32", "float32", "float64"), opts={"conv": {"groups": False}, "m_conv_bn": {"groups": False}},
                           unary=("conv", "m_silu", "m_conv_bn", "m_matmul_add", *F.CHAIN_OPS),
                           multi=("binop", "concat", "matmul")))
    elif fmt == "nnet":
        net = draw(N.networks())
    elif fmt == "quantized":
        net = draw(Q.cases())
    elif fmt == "torch":
        net = draw(T.programs(True))
    else:
        net = draw(K.networks())
    c = {"fmt": fmt, "net": net, "opt": draw(st.booleans()), "bin": draw(st.integers(0, 2)) == 0,
         "alg": draw(st.sampled_from(ALGS)), "hex": draw(st.booleans()), "samples": draw(st.sampled_from(["given", "random", "none"])),
         "debug": draw(st.integers(0, 3)) == 0, "disguise": draw(st.none() | st.integers(0, 10**6)),
         "by_idx": draw(st.booleans()), "normalize": draw(st.booleans()), "both": draw(st.booleans()),
         "flags": draw(st.sampled_from([["-O1", "-w"], ["-w"], "-O1 -w", None]))}
    return c


def arguments(case, d):
    """What the user gives, built from the description of the case."""
    fmt, net = case["fmt"], case["net"]
    d.mkdir(parents=True, exist_ok=True)
    if fmt == "onnx":
        model = S.build_model(net)
        if case["disguise"] is not None:
            model = disguise(model, case["disguise"], constants=True, inputs=case["disguise"] % 2 == 0)
        x = S.dataset(net)
    elif fmt == "nnet":
        x = N.write(net, d / "model.nnet")["x"]
        model = str(d / "model.nnet")
    elif fmt == "quantized":
        model, cfg, x, *_ = Q.define(net)
        (d / "AVX512VNNI.json").write_text(json.dumps(cfg))
        x = x.reshape(len(x), 1, -1).astype(cfg["quantization"]["pydtype"])
    elif fmt == "torch":
        model, x = program(net)
    else:
        x = K.samples(net)
        K.write(net, d / "model.json")
        model = str(d / "model.json")
    kw = {"bin_dataset": case["bin"], "to_hex": case["hex"], "optimization": case["opt"], "nb_tests": len(x),
          "test_dataset": x if case["samples"] == "given" else None,
          "external_input": case["samples"] == "none" and not case["bin"],
          "makefile_properties": {"compiler": "gcc", "linker_flags": ["-lm"]}}
    if case["flags"]:
        kw["makefile_properties"]["compiler_flags"] = copy.copy(case["flags"])
    if case["alg"] and fmt != "torch":
        kw["versions"] = {"Conv2D": case["alg"]}
        if case["both"]:
            kw["versions"]["MaxPooling2D"] = "default"
    if fmt == "nnet" and case["normalize"]:
        kw["normalize"] = True
    if fmt == "quantized":
        kw["target"] = "AVX512VNNI"
        if kw["external_input"]:
            kw["external_input"] = False
    if case["samples"] != "none" and case["debug"] and fmt == "onnx":
        kw["debug_mode"] = "onnx"
    return model, kw


def program(net):
    """The exported PyTorch program, and its samples."""
    import numpy as np
    import torch
    torch.manual_seed(0)
    with torch.no_grad(), quiet():
        m = T.Net(net).eval()
        x = S.rand_array((net["n"], int(np.prod(net["input"]))), net["dseed"], "unit").astype(np.float32)
        t = torch.from_numpy(x[0].reshape(net["input"]))
        if net["last"]:
            t, m = t.to(memory_format=torch.channels_last), m.to(memory_format=torch.channels_last)
        try:
            return torch.export.export(m, (t,)), x
        except Exception as e:  # noqa: BLE001
            raise Reject(f"PyTorch: {type(e).__name__}") from e


def files_of(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(d.rglob("*")) if p.is_file()}


def build(model, kw, d):
    """The configurations of targets are read from the current directory."""
    from acetone_nnet import CodeGenerator
    cwd = os.getcwd()
    os.chdir(d)
    try:
        with quiet():
            return CodeGenerator(file=model, function_name="inference", **kw)
    finally:
        os.chdir(cwd)


def emit(gen, kw, out):
    out.mkdir(parents=True, exist_ok=True)
    # the directory is written in the code by the debug mode: use one name for all
    cwd = os.getcwd()
    os.chdir(out)
    try:
        with quiet():
            gen.generate_c_files("code")
            if not kw["external_input"]:
                gen.compute_inference("code")
    finally:
        os.chdir(cwd)
    return files_of(out / "code")


def generate(case, d):
    model, kw = arguments(case, d)
    return emit(build(model, kw, d), kw, d / "out")


def state(model, kw):
    import onnx
    if isinstance(model, onnx.ModelProto):
        m = model.SerializeToString()
    elif isinstance(model, str):
        m = open(model, "rb").read()
    else:
        m = [(k, v.detach().contiguous().numpy().tobytes()) for k, v in model.state_dict.items()], str(model.graph)
    x = kw["test_dataset"]
    return [m, None if x is None else (x.dtype.str, x.shape, x.tobytes()), copy.deepcopy(kw.get("versions")),
            copy.deepcopy(kw["makefile_properties"])]


def first_difference(a, b):
    if sorted(a) != sorted(b):
        return f"files {sorted(a)} and {sorted(b)}"
    for n in a:
        if a[n] != b[n]:
            la, lb = a[n].split(b"\n"), b[n].split(b"\n")
            k = next((i for i, (u, v) in enumerate(zip(la, lb)) if u != v), min(len(la), len(lb)))
            return f"{n}, line {k + 1}: {la[k:k + 1]!r:.200} and {lb[k:k + 1]!r:.200}"
    return None


def run(case):
    import onnx
    what = f"{ {k: v for k, v in case.items() if k != 'net'} }"
    with scratch() as top:
        try:
            model, kw = arguments(case, top / "args")
            before = state(model, kw)
            gen = build(model, kw, top / "args")
            a = emit(gen, kw, top / "a")
            names = ["the model", "the samples", "versions", "makefile_properties"]
            for n, u, v in zip(names, before, state(model, kw)):
                if u != v:
                    raise Violation(f"generation modified {n} of the caller\n{what}")
            runs = {"the same generator": emit(gen, kw, top / "b"),
                    "another generator": emit(build(model, kw, top / "args"), kw, top / "c")}
            if case["fmt"] == "onnx":
                f = top / "model.onnx"
                onnx.save(model, str(f))
                runs["a file"] = emit(build(f if case["by_idx"] else str(f), kw, top / "args"), kw, top / "d")
            for n, u, v in zip(names, before, state(model, kw)):
                if u != v:
                    raise Violation(f"generating again modified {n} of the caller\n{what}")
        except (Violation, Reject):
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{type(e).__name__}: {e}\n{what}") from e
    for n, b in runs.items():
        d = first_difference(a, b)
        if d:
            raise Violation(f"generating again from {n} gives something else: {d}\n{what}")
    return Info([case["fmt"], "opt" if case["opt"] else "noopt", "bin" if case["bin"] else "text", f"alg:{case['alg']}",
                 f"samples:{case['samples']}", f"debug:{'debug_mode' in kw}", f"constants:{case['disguise'] is not None}"],
                len(a) > 5, {"files": {k: len(v) for k, v in a.items()}, "options": what})


@st.composite
def sessions(draw):
    n = draw(st.integers(2, 3))
    return {"cases": [draw(cases()) for _ in range(n)], "order": draw(st.permutations(range(n))),
            "last": draw(st.integers(0, n - 1))}


def run_session(case):
    """Several generators alive at once: each writes what it writes alone."""
    what = f"{[{k: v for k, v in c.items() if k != 'net'} for c in case['cases']]}, order {case['order']}"
    with scratch() as top:
        try:
            args = [arguments(c, top / f"args{i}") for i, c in enumerate(case["cases"])]
            alone = [emit(build(*a, top / f"args{i}"), a[1], top / f"alone{i}") for i, a in enumerate(args)]
            gens = [build(*a, top / f"args{i}") for i, a in enumerate(args)]
            for i in [*case["order"], case["last"]]:
                got = emit(gens[i], args[i][1], top / f"with{i}" / str(len(list(top.iterdir()))))
                d = first_difference(alone[i], got)
                if d:
                    raise Violation(f"a generator alive with others generates something else: {d}\n{what}")
        except (Violation, Reject):
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{type(e).__name__}: {e}\n{what}") from e
    return Info([*(c["fmt"] for c in case["cases"]), f"generators{len(gens)}"], True, {"options": what})


@st.composite
def batches(draw):
    return {"cases": [draw(cases()) for _ in range(draw(st.integers(16, 24)))],
            "seeds": draw(st.lists(st.integers(1, 4000000000), min_size=2, max_size=2, unique=True))}


def run_batch(batch):
    with scratch() as top:
        (top / "cases.json").write_text(json.dumps(batch["cases"]))
        got = []
        for k, seed in enumerate(batch["seeds"]):
            env = dict(os.environ, PYTHONHASHSEED=str(seed))
            (top / f"w{k}").mkdir()
            rc, o, e = sh([sys.executable, str(VERIF) + "/pbt/genmany.py", str(top / "cases.json"), str(top / f"w{k}")],
                          timeout=400, env=env)
            if rc:
                raise RuntimeError(e[-800:])
            got.append({str(p.name): files_of(p / "out") if p.is_dir() else p.read_bytes() for p in (top / f"w{k}").iterdir()})
    if got[0].keys() != got[1].keys():
        raise Violation(f"two processes generate {sorted(got[0])} and {sorted(got[1])}\n{batch['cases']}")
    for n in got[0]:
        a, b = got[0][n], got[1].get(n)
        if isinstance(a, bytes) or isinstance(b, bytes) or b is None:
            raise Violation(f"generation in a process failed: {a if isinstance(a, bytes) else b}")
        d = first_difference(a, b)
        if d:
            raise Violation(f"two processes generate different codes: {d}\n{batch['cases'][int(n)]}")
    return Info([f"batch{len(batch['cases'])}"], True, {"batch": len(batch["cases"])})


fams = [Family("repeat", cases, run, 700), Family("session", sessions, run_session, 200), Family("processes", batches, run_batch, 8)]

CHECK = Check(
    "P24", "Generation is deterministic and leaves its arguments untouched",
    "Drawn networks of every format and options; the files written by the same generator twice, by another generator "
    "built from the same arguments, from the model saved in a file, by generators alive together, and by processes with other hash seeds are "
    "compared byte for byte, and the arguments of the caller before and after. Non-trivial: every case which "
    "generates its files.",
    fams)
